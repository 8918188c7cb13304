#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo (run by hand, never by a check)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # a distinctive part of the commit subject -> property
    ("norm2 allocated", "C11"), ("norm and norm2 of a scalar", "C11"), ("Matrix kept a reference", "C22"), ("copy assignment, clone", "C01"),
    ("scalar accepted an index", "C01"), ("value and Serie::get", "C01"), ("itemSize 0 from values", "C01"), ("EigenValues and EigenVectors never", "C17"),
    ("Components resolved matrix", "C18"), ("Area, Normals and Valence listed", "C17"), ("Coordinates read past", "C18"), ("UserDefinedDecomposer kept", "C18"),
    ("Manager deleted decomposers", "C17"), ("map over several empty", "C02"), ("sort ignored the comparator", "C15"), ("quantile of an empty", "C13"),
    ("bins counted values", "C14"), ("normalize read the minimum", "C11"), ("Vector::norm accumulated", "C22"), ("wrong yz entry", "C08"),
    ("memoize took Series", "C06"), ("partition_n of one Serie", "C04"), ("parallel_execute.h used concat", "C05"), ("parallel_execute threw for an empty", "C05"),
    ("geo::areas called div", "C19"), ("dot and cross read", "C11"), ("operator<< of Array", "C28"), ("functions defined in headers", "C24"),
    ("sub.h defined a second", "C10"), ("dot.h defined make_det", "C24"), ("Serie::pipe with one", "C24"), ("selecting, splitting", "C27"),
    ("item-wise operations dropped", "C27"), ("symmetricEigen leaked", "C26"), ("minMax of a scalar", "C12"), ("add, sub and weigthedSum of an empty", "C10"),
    ("Vector operations read", "C22"), ("Valence wrote out", "C19"), ("Serie::dump threw", "C28"), ("parallel_execute.h hid", "C05"),
    ("if_then_else did not compile", "C02"), ("quantile at the position", "C13"), ("normals took a NaN", "C19"), ("squaredMatrix and symSquaredMatrix", "C22"),
    ("a Serie was left with a count", "C26"), ("Dataframe::add left", "C26"), ("Manager::add leaked", "C26"), ("memoize kept an invalid", "C26"),
    ("Dataframe::setCount left", "C26"), ("Dataframe::contains did not find", "C16"), ("copying a Manager", "C17"), ("Dataframe::add set the count", "C26"),
]
import sys
log = subprocess.run(["git", "-C", sys.argv[1] if len(sys.argv) > 1 else "/repo", "log", "--reverse", "--format=%h %s", "3e65fb1.."], capture_output=True, text=True).stdout
out = ["# Defects found. 'fixed:' lines record repairs and suppress nothing. A line 'known: property=<id> key=<key> <what>'",
       "# would list an unrepaired defect by the key its monitor reports; there is none."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    p = [q for m, q in MAP if m in s]
    assert len(p) == 1, (l, p)
    out.append(f"fixed: property={p[0]} {h} {s[5:]}")
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out) - 2, "fixed")
