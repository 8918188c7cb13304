#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property of properties.jsonl which has a harness."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c = CHECKS.get(p["id"])
    if c and all(os.path.exists(os.path.join(HERE, "harness", r["harness"])) for r in c["runs"]):
        fl = sorted({r["flavour"] for r in c["runs"]})
        san = {"asan": "AddressSanitizer and UBSan", "tsan": "ThreadSanitizer", "plain": "interposed allocator", "memcheck": "valgrind memcheck"}
        n = NOTES.get(p["id"], {})
        checks.append(dict(property=p["id"], quick_cmd=f"./run_check.py {p['id']} --tier quick", thorough_cmd=f"./run_check.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique="runtime monitoring: " + n.get("technique", "reference-model monitor over generated executions") + " (" + ", ".join(san[f] for f in fl) + ")",
                           level=c["level"],
                           level_note=n.get("note", "Held on the executions generated (numbers in the evidence file), not a proof.") +
                           " Trusts the compiler, the sanitizer runtime and the reference computation of the harness."))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Each check rebuilds /repo's current tree itself, in /verif/build (ignored by git). No hooks in /repo: all monitors work at the public interface or by interposition in the harness.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
