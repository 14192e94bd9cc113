#!/usr/bin/env python3
"""plant.py <seed id>... [--checks all|own|C01,C02] : tries a planted bug of seeded/ in /repo (and undoes it).
Reports whether it builds, passes the stable tests, its demo's exit codes, and which checks catch it."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def tests_ok():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "build fails: " + b.stdout[-600:]
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    o = json.load(open("/tmp/plant_out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("passed") or base.get("stable") or base.get("tests") or [])
    miss = want - set(o["passed"])
    return "" if not miss else "tests fail: %s" % sorted(miss)[:5]
def main():
    args, checks = [], "own"
    it = iter(sys.argv[1:])
    for a in it:
        if a == "--checks": checks = next(it)
        else: args.append(a)
    for s in args:
        d = os.path.join(V, "seeded", s); meta = json.load(open(d + "/meta.json"))
        if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
        clean = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
        ap = sh("git -C /repo apply %s/patch.diff" % d)
        if ap.returncode: print(s, "patch does not apply", ap.stdout); continue
        try:
            t = tests_ok()
            dm = sh("bash %s/demo.sh" % d, cwd="/repo")
            caught = {}
            ids = [meta["property"]] if checks == "own" else [] if checks == "none" else ["C%02d" % i for i in range(1, 28)] if checks == "all" else checks.split(",")
            for c in ids if not t else []:
                r = sh("python3 %s/check.py %s" % (V, c))
                caught[c] = r.returncode
                if c == meta["property"]: first = "\n    ".join(r.stdout.splitlines()[:2])[:500]
            print("%s [%s] %s; demo clean %d planted %d; checks %s" % (s, meta["property"], t or "tests pass", clean, dm.returncode, caught), flush=True)
            if meta["property"] in caught: print("    " + first, flush=True)
            if dm.returncode == 0: print(dm.stdout[-500:])
        finally:
            sh("git -C /repo checkout -- .")
main()
