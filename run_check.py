#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's current tree under
instrumentation together with the property's harnesses, runs them, matches what
the monitors reported against known_findings.txt, writes the evidence file.

  run_check.py <property> [--tier quick|thorough] [--seed N]
  run_check.py <property> --replay replays/<file>.json

exit 0: held on everything observed; exit 1: VIOLATION line(s); other: the check
itself could not decide (build error, harness error, nothing observed).
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARN = os.path.join(HERE, "harness")
NCPU = 8

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa

BASE = ["-std=gnu++20", "-include", "cstdint", "-include", "algorithm", "-I" + REPO + "/include", "-pthread", "-w"]
FLAVOURS = {
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                   "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
                 env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
                      "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1"}),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4"}),
    "plain": dict(cxx="g++", flags=["-O2", "-g1"], env={}),
    # same binary as plain, run under memcheck (uninitialised values reaching a decision)
    "memcheck": dict(cxx="g++", flags=["-O1", "-g1"], env={},
                     wrap=["valgrind", "-q", "--error-exitcode=86", "--exit-on-first-error=yes", "--leak-check=no", "--undef-value-errors=yes",
                           "--num-callers=20"]),
}
HANG_S = 90  # one case; the slowest takes well under a second


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_files():
    out = []
    for root in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()


class BuildError(Exception):
    def __init__(self, cmd, err):
        super().__init__(" ".join(cmd) + "\n" + err[-6000:])
        src = cmd[cmd.index("-c") + 1] if "-c" in cmd else ""
        self.harness = os.path.basename(src) if src.startswith(HARN) else None
        # the compiler's own verdict, not a compiler that was ended or crashed
        first = re.search(r"[^\n]*: error: [^\n]*", err)
        self.verdict = first.group(0)[:400] if first and "internal compiler error" not in err and "Killed" not in err else None


def compile_one(cmd, obj):
    p = subprocess.run(cmd + ["-o", obj + ".tmp"], capture_output=True, text=True, env=dict(os.environ, LC_ALL="C"))
    if p.returncode:
        raise BuildError(cmd, p.stderr)
    os.replace(obj + ".tmp", obj)


def build(runs):
    """Builds every (flavour, harness) of runs; returns {(flavour, harness): exe}."""
    files = tree_files()
    th = tree_hash(files)
    hh = tree_hash(sorted(glob.glob(HARN + "/*.h")))
    srcs = [f for f in files if f.startswith(os.path.join(REPO, "src")) and f.endswith((".cxx", ".cpp", ".cc"))]
    jobs = []   # (priority, cmd, obj)
    links = {}
    for r in runs:
        fl = FLAVOURS[r["flavour"]]
        flags = BASE + fl["flags"]
        fdir = os.path.join(BUILD, sha(th, fl["cxx"], *flags))
        os.makedirs(fdir, exist_ok=True)
        os.utime(fdir)
        libobjs = []
        for s in srcs:
            o = os.path.join(fdir, sha(s) + ".o")
            libobjs.append(o)
            jobs.append((1, [fl["cxx"], *flags, "-c", s], o))
        hobjs = []
        for h in [r["harness"]] + r.get("with", []):
            s = os.path.join(HARN, h)
            with open(s, "rb") as fp:
                o = os.path.join(fdir, h + "." + sha(hh, fp.read()) + ".o")
            hobjs.append(o)
            jobs.append((0, [fl["cxx"], *flags, "-I" + HARN, "-c", s], o))
        exe = os.path.join(fdir, r["harness"] + ".exe")
        links[(r["flavour"], r["harness"])] = (exe, [fl["cxx"], *flags, *hobjs, *libobjs, "-ldl"])
    todo = {}
    for pr, cmd, o in sorted(jobs, key=lambda j: j[0]):
        if not os.path.exists(o):
            todo.setdefault(o, cmd)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        failed = []
        for f in [ex.submit(compile_one, c, o) for o, c in todo.items()]:
            try:
                f.result()
            except BuildError as e:
                failed.append(e)
        # of the library first: then the harnesses say nothing
        for e in sorted(failed, key=lambda e: bool(e.harness and e.verdict)):
            raise e
        for f in [ex.submit(compile_one, c, e) for e, c in links.values()]:
            f.result()
    # keep the cache small: only the most recent trees
    dirs = sorted((d for d in glob.glob(BUILD + "/*") if os.path.isdir(d)), key=os.path.getmtime)
    for d in dirs[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    return {k: v[0] for k, v in links.items()}


CRUMB = "64sQQQ160s"


def read_crumb(path):
    try:
        with open(path, "rb") as f:
            d, i, st, act, note = struct.unpack(CRUMB, f.read(struct.calcsize(CRUMB)))
        return dict(driver=d.split(b"\0")[0].decode(), index=i, started=st, active=act, note=note.split(b"\0")[0].decode(errors="replace"))
    except Exception:
        return None


def summary_of(err):
    for pat in (r"SUMMARY: .*", r"[^\n]*runtime error: [^\n]*", r"==\d+== [A-Z][^\n]*", r"terminate called[^\n]*\n[^\n]*"):
        m = re.search(pat, err)
        if m:
            return re.sub(r"==\d+== ", "", m.group(0))[:300]
    return err.strip()[-300:]


def run_proc(cmd, env, crumb, scratch, budget):
    """Runs one shard process. Returns (rc, stderr, hung)."""
    errf = crumb + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
        hung = None
        while True:
            try:
                p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                c = read_crumb(crumb)
                now = int(time.monotonic() * 1000)
                if c and c["active"] and now - c["started"] > HANG_S * 1000:
                    hung = "case"
                elif time.time() > budget:
                    hung = "budget"
                if hung:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
    with open(errf, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 20000))
        err = ef.read().decode(errors="replace")
    return p.returncode, err, hung


def run_shard(exe, run, shard, shards, seed, tier, scratch, budget):
    """Runs one shard to its end, restarting after crashes. Returns dict."""
    fl = FLAVOURS[run["flavour"]]
    env = dict(os.environ, LC_ALL="C.UTF-8", **fl["env"])
    base = [*fl.get("wrap", []), exe, "--seed", str(seed), "--tier", tier, "--scale", str(run.get("scale", 1.0))]
    if run.get("drivers"):
        base += ["--only", ",".join(run["drivers"])]
    res = dict(drivers=[], violations=[], errors=[])
    resume = []
    for attempt in range(12):
        tag = os.path.join(scratch, f"{run['flavour']}-{run['harness']}-{shard}-{attempt}")
        out, crumb = tag + ".json", tag + ".crumb"
        rc, err, hung = run_proc([*base, "--shard", str(shard), str(shards), "--out", out, "--crumb", crumb, *resume], env, crumb, scratch, budget)
        if hung == "budget":
            res["errors"].append(f"shard {shard} of {run['harness']} ran out of its time budget (inconclusive)")
            return res
        if rc in (0, 1) and not hung and os.path.exists(out):
            with open(out) as f:
                d = json.load(f)
            res["drivers"] += d["drivers"]
            res["violations"] += d["violations"]
            return res
        c = read_crumb(crumb)
        if not c or not c["driver"] or rc == 3:
            res["errors"].append(f"{run['harness']} ended with {rc}: {err[-1500:]}")
            return res
        if hung:
            # once more, alone: a hang has to show twice
            crumb2 = tag + ".again.crumb"
            rc2, err2, hung2 = run_proc([*base, "--driver", c["driver"], "--case", str(c["index"]), "--crumb", crumb2], env, crumb2, scratch, budget)
            if hung2 == "case":
                res["violations"].append(dict(driver=c["driver"], index=c["index"], key="hang:" + c["driver"],
                                              msg=f"no result after {HANG_S} s, twice ({c['note']})", desc=""))
            elif hung2:
                res["errors"].append("a hang could not be confirmed (inconclusive)")
                return res
        else:
            res["violations"].append(dict(driver=c["driver"], index=c["index"], key="crash:" + c["driver"],
                                          msg=f"rc {rc} {c['note']}: " + summary_of(err), desc="", stderr=err[-6000:]))
        resume = ["--resume", c["driver"], str(c["index"] + 1)]
    return res


def load_known():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m:
                known.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.property]
    runs = [r for r in chk["runs"] if a.tier == "thorough" or not r.get("thorough_only")]
    try:
        exes = build(runs)
    except BuildError as e:
        print("build failed:\n" + str(e), file=sys.stderr)
        if not (e.harness and e.verdict):
            return 2
        # The library compiles, a program that uses its interface as documented
        # does not any more.
        return uncompilable(a, chk, e, t0)
    if a.build_only:
        return 0
    if a.replay:
        return replay(a, exes)
    scratch = os.path.join(BUILD, f"run-{a.property}-{os.getpid()}")
    os.makedirs(scratch)
    budget = time.time() + (800 - (time.time() - t0) if a.tier == "quick" else chk.get("thorough_budget", 6 * 3600))
    results = []
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = []
            for r in runs:
                n = r.get("shards", NCPU)
                run = dict(r)
                if a.tier == "thorough" and "thorough_scale" in r:
                    run["scale"] = r["thorough_scale"]
                for s in range(n):
                    futs.append((r, ex.submit(run_shard, exes[(r["flavour"], r["harness"])], run, s, n, a.seed, a.tier, scratch, budget)))
            for r, f in futs:
                results.append((r, f.result()))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    # ---- aggregate what the monitors observed
    errors, viol = [], []
    drv = {}
    for r, res in results:
        errors += res["errors"]
        for v in res["violations"]:
            viol.append(dict(v, harness=r["harness"], flavour=r["flavour"], scale=r.get("scale", 1.0)))
        for d in res["drivers"]:
            e = drv.setdefault((r["flavour"], r["harness"], d["name"]),
                               dict(evaluations=0, hashes=set(), samples=[], need=d["need"], events={}, rule=d["rule"], run=r))
            e["evaluations"] += d["evaluations"]
            e["hashes"] |= set(d["hashes"])
            e["samples"] += d["samples"]
            for k, n in d["events"].items():
                e["events"][k] = e["events"].get(k, 0) + n
    for (fl, h, name), e in drv.items():
        f = e["run"].get("need_scale", e["run"].get("scale", 1.0))
        for k, n in e["need"].items():
            if e["events"].get(k, 0) < n * min(1.0, f) and not viol:
                errors.append(f"{h}/{name} [{fl}] observed only {e['events'].get(k, 0)} '{k}' events, {n * min(1.0, f):.0f} needed (inconclusive)")
    hashes = {}
    for (fl, h, name), e in drv.items():
        hashes.setdefault((h, name), set()).update(e["hashes"])
    samples = []
    for (fl, h, name), e in drv.items():
        samples += [f"{name}: {s}" for s in e["samples"][:2] if s]

    known = load_known()
    fresh, seen_known = {}, {}
    for v in viol:
        hit = next((k for k in known if k["property"] == a.property and fnmatch.fnmatchcase(v["key"], k["key"])), None)
        if hit:
            seen_known[hit["key"]] = hit
        else:
            fresh.setdefault(v["key"], v)
    cov = dict(
        evaluations=sum(e["evaluations"] for e in drv.values()),
        distinct_nontrivial=sum(len(s) for s in hashes.values()),
        rule=" | ".join(sorted({f"{k[2]}: {e['rule']}" for k, e in drv.items()})),
        samples=samples[:12] or ["none"],
        drivers=[dict(driver=k[2], harness=k[1], build=k[0], evaluations=e["evaluations"], distinct_nontrivial=len(e["hashes"]), events=e["events"])
                 for k, e in sorted(drv.items())],
        violations=[dict(key=v["key"], msg=v["msg"][:400]) for v in viol[:20]],
        inconclusive=errors[:10],
    )
    ev = dict(property=a.property, tier=a.tier, seed=a.seed, level=chk["level"], coverage=cov, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["property"] == a.property:
            print(f"KNOWN-FINDING: property={a.property} {k['what']}" + ("" if k["key"] in seen_known else " (not met in this run)"))
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for key, v in sorted(fresh.items()):
            p = os.path.join("replays", f"{a.property}-{re.sub(r'[^A-Za-z0-9]+', '_', key)}.json")
            with open(os.path.join(HERE, p), "w") as f:
                json.dump(dict(v, property=a.property, seed=a.seed, tier=a.tier,
                               replay_cmd=f"./run_check.py {a.property} --replay {p}"), f, indent=1)
            print(f"  [{v['harness']}/{v['driver']} case {v['index']}, {v['flavour']}] {key}: {v['msg'][:600]}")
            print(f"VIOLATION property={a.property} replay={p}")
        return 1
    if errors:
        for e in errors[:10]:
            print("inconclusive: " + e, file=sys.stderr)
        return 3
    print(f"{a.property}: held on {cov['evaluations']} executions ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    return 0


def uncompilable(a, chk, e, t0):
    if a.build_only:
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    key, msg = "interface", f"{e.harness} does not compile with the library any more: {e.verdict}"
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(dict(property=a.property, tier=a.tier, seed=a.seed, level=chk["level"], wall_s=round(time.time() - t0, 1),
                       coverage=dict(evaluations=1, distinct_nontrivial=1, rule="compilation of the harness", samples=[msg],
                                     violations=[dict(key=key, msg=msg)])), f, indent=1)
    p = a.replay or os.path.join("replays", f"{a.property}-{key}.json")
    if not a.replay:
        with open(os.path.join(HERE, p), "w") as f:
            json.dump(dict(property=a.property, key=key, msg=msg, harness=e.harness, compile=True, seed=a.seed, tier=a.tier, stderr=str(e)[-6000:],
                           replay_cmd=f"./run_check.py {a.property} --replay {p}"), f, indent=1)
    print(f"  [{e.harness}] {key}: {msg}")
    print(f"VIOLATION property={a.property} replay={p}")
    return 1


def replay(a, exes):
    with open(a.replay) as f:
        v = json.load(f)
    if v.get("compile"):
        print("it compiles now")
        return 0
    fl = FLAVOURS[v["flavour"]]
    exe = exes[(v["flavour"], v["harness"])]
    p = subprocess.run([*fl.get("wrap", []), exe, "--seed", str(v["seed"]), "--tier", v["tier"], "--scale", str(v.get("scale", 1.0)), "--driver", v["driver"], "--case", str(v["index"])],
                       env=dict(os.environ, **fl["env"]), cwd="/tmp")
    if p.returncode == 0:
        print("the case passes now")
        return 0
    print(f"VIOLATION property={v['property']} replay={a.replay}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
