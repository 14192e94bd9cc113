#!/usr/bin/env python3
"""Decides one property of boostorg/variant by bounded exhaustive exploration of the real code.

  check.py <property> [--tier quick|thorough]     exit 0: held, exit 1: VIOLATION line, exit 2: no answer
  check.py <property> --replay <file>             runs one recorded violation again

Each property has a list of units. A unit is one program, generated or taken from mc/, compiled against
/repo/include and run; it prints JSON lines: stats, violations. Every violation is run again in a fresh
process before it is reported.
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import units as U

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="halt_on_error=1:exitcode=98", LC_ALL="C")


class NoAnswer(Exception):
    pass


def run(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=ENV, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout after %d s" % timeout


COMPILED, COMPLOCK = {}, threading.Lock()


def compile_unit(u, bdir, fresh=False):
    """Units with the same source and flags share one program."""
    key = (u.source, u.cxx, u.std, tuple(u.flags))
    with COMPLOCK:
        lock = COMPILED.setdefault(key, [threading.Lock(), None])
    with lock[0]:
        if lock[1] is None or fresh:
            lock[1] = compile_now(u, bdir)
        return lock[1]


def compile_now(u, bdir):
    src = os.path.join(bdir, u.name + ".cpp")
    with open(src, "w") as f:
        f.write(u.source)
    exe = os.path.join(bdir, u.name + ".exe")
    cmd = [u.cxx, "-std=" + u.std] + u.flags + ["-w", "-I" + REPO + "/include", "-I" + HERE + "/mc", src, "-o", exe] + u.libs
    t = time.time()
    rc, o, e = run(cmd, 600)
    return exe, rc, e, time.time() - t


def lines(out):
    r = []
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                r.append(json.loads(l, strict=False))
            except ValueError:
                r.append({"violation": "GENERIC", "op": "?", "fired": 0, "msg": "unreadable output: " + l[:200], "trace": ""})
    return r


def exec_unit(u, exe, extra=(), timeout=None):
    cmd = [exe] + list(u.args) + list(extra)
    r = run(cmd, timeout or u.timeout)
    if "-fsanitize=thread" in u.flags and r[0] is not None and "unexpected memory mapping" in r[2]:
        r = run(["setarch", os.uname().machine, "-R"] + cmd, timeout or u.timeout)      # ThreadSanitizer needs a fixed address layout
    return r


BLAME = re.compile(r"^case_(\d+):\d+:\d+:\s+(?:error:|fatal error:|required |recursively required |note: in .*requested here)")


def accepted_alone(u, c, bdir):
    """Whether the compiler accepts this one program: True, False, or None if it gave no answer."""
    src = os.path.join(bdir, "%s_%d.cpp" % (u.name, c[0]))
    with open(src, "w") as f:
        f.write(u.program([c]))
    rc, o, e = run([u.cxx, "-std=" + u.std] + u.flags + ["-w", "-I" + REPO + "/include", "-c", src, "-o", os.devnull], 300)
    return None if rc is None or rc < 0 or "internal compiler error" in e or "Killed" in e else rc == 0


def verdict_unit(u, bdir):
    """A unit made of programs that the compiler must accept, or must reject. They are compiled together; every one whose
    verdict is not the expected one is compiled again alone, and that decides."""
    src = os.path.join(bdir, u.name + ".cpp")
    with open(src, "w") as f:
        f.write(u.program(u.cases))
    t = time.time()
    rc, o, e = run([u.cxx, "-std=" + u.std] + u.flags + ["-w", "-I" + REPO + "/include", "-c", src, "-o", os.devnull], 600)
    res = {"unit": u, "exe": None, "compile_s": time.time() - t, "stats": [], "viol": []}
    blamed = {int(m.group(1)) for l in e.splitlines() for m in [BLAME.match(l)] if m}
    odd = [c for c in u.cases if u.accept != (rc == 0 or c[0] not in blamed)]
    if u.accept and rc != 0:
        odd = list(u.cases)
    alone = 0
    for c in odd:
        a = accepted_alone(u, c, bdir)
        alone += 1
        if a is None:
            res["error"] = "%s: the compiler gave no answer on '%s'" % (u.name, c[1])
            return res
        if a != u.accept:
            res["viol"].append({"violation": "REJECTED" if u.accept else "ACCEPTED", "unit": u.name, "op": c[1], "fired": 0, "trace": "case %d" % c[0],
                                "msg": "this program %s: %s  %s" % ("must compile and does not" if u.accept else "must not compile and does", c[3], c[2])})
            if len(res["viol"]) >= 3:
                break
    res["stats"].append({"stats": u.name, "states": len(u.cases), "transitions": len(u.cases), "runs": len(u.cases), "compiled_alone": alone, "complete": True,
                         "sample": "%s: %s" % ("accepted" if u.accept else "rejected", u.cases[0][1])})
    return res


def do_unit(u, bdir):
    if u.cases:
        return verdict_unit(u, bdir)
    exe, rc, err, ct = compile_unit(u, bdir)
    res = {"unit": u, "exe": exe, "compile_s": ct, "stats": [], "viol": []}
    if rc is None or rc < 0 or "internal compiler error" in err or "Killed" in err:
        rc2 = rc
        if rc is not None:           # once more, in case the machine was short of memory
            exe, rc2, err, ct = compile_unit(u, bdir, True)
        if rc2 is None or rc2 < 0 or "Killed" in err or "internal compiler error" in err:
            res["error"] = "compiler failed on %s: %s" % (u.name, err[-500:])
            return res
        rc = rc2
    if rc != 0:
        res["compile_error"] = "\n".join(l for l in err.splitlines() if "error" in l)[:2000] or err[:2000]
        return res
    t = time.time()
    rc, o, e = exec_unit(u, exe)
    res["run_s"] = time.time() - t
    if rc is None:
        res["error"] = "%s: %s" % (u.name, e)
        return res
    if rc != 0:
        res["error"] = "%s ended with %s: %s" % (u.name, rc, (o + e)[-600:])
        return res
    for r in lines(o):
        if "violation" in r:
            r["unit"] = u.name
            res["viol"].append(r)
        elif "stats" in r:
            res["stats"].append(r)
    if not res["stats"]:
        res["error"] = "%s printed no statistics: %s" % (u.name, (o + e)[-400:])
    return res


def sanity(bdir, u):
    src = os.path.join(bdir, "sanity_%s.cpp" % u.name)
    with open(src, "w") as f:
        f.write("#include <boost/variant.hpp>\nint main() { boost::variant<int, char> v; return v.which(); }\n")
    rc, o, e = run([u.cxx, "-std=" + u.std] + [f for f in u.flags if not f.startswith("-fsan")] + ["-w", "-I" + REPO + "/include", "-fsyntax-only", src], 120)
    return rc == 0


def known_findings(pid):
    """Lines 'known: property=<id> <json with unit and trace>' of known_findings.txt"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (\{.*\})\s*$", l)
            if m and m.group(1) == pid:
                out.append(json.loads(m.group(2)))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    pid, tier = a.property, "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    prop = U.properties()[pid]
    units = prop.units(tier)
    if a.only:
        units = [u for u in units if re.search(a.only, u.name)]
    bdir = tempfile.mkdtemp(prefix="vmc_%s_" % pid)
    try:
        if a.replay:
            return replay(pid, prop, units, bdir, a.replay)
        return check(pid, prop, units, bdir, tier, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("kept", bdir)


def replay(pid, prop, units, bdir, path):
    r = json.load(open(path))
    us = [u for u in units if u.name == r["unit"]] or [u for u in prop.units("thorough") if u.name == r["unit"]]
    if not us:
        print("no such unit", r["unit"])
        return 2
    u = us[0]
    if u.cases:
        c = [c for c in u.cases if "case %d" % c[0] == r["trace"]][0]
        a = accepted_alone(u, c, bdir)
        print("%s -- %s" % (r["msg"], "accepted" if a else "rejected"))
        return 2 if a is None else int(a != u.accept)
    exe, rc, err, _ = compile_unit(u, bdir)
    if rc == 0 and r.get("against"):
        w = [x for x in units + prop.units("thorough") if x.name == r["against"]][0]
        exe2, rc, err, _ = compile_unit(w, bdir)
        a, b = dump({"unit": w, "exe": exe2}), dump({"unit": u, "exe": exe})
        for n, x in ((w.name, sorted(a - b)), (u.name, sorted(b - a))):
            print("only with %s: %d outcomes\n  %s" % (n, len(x), "\n  ".join(x[:20])))
        return 1 if a != b else 0
    if rc != 0:
        print("compile failed:", err[:1500])
        return 1 if r.get("violation") == "COMPILE" else 2
    rc, o, e = exec_unit(u, exe, ["--replay", r["trace"]])
    print(o)
    bad = [x for x in lines(o) if "violation" in x]
    return 1 if bad else 0


def confirm(u, exe, v):
    """The same case again in a fresh process."""
    if u.cases:
        return True      # was compiled alone
    rc, o, e = exec_unit(u, exe, ["--replay", v["trace"]], 120)
    if any("violation" in x for x in lines(o)):
        return True
    rc, o, e = exec_unit(u, exe)     # a violation that needs what ran before it
    return any(x.get("violation") and x.get("trace") == v["trace"] for x in lines(o))


def dump(r):
    """All outcomes of a unit."""
    rc, o, e = exec_unit(r["unit"], r["exe"], ["--dump"])
    return {l[4:] for l in o.splitlines() if l.startswith("OUT ")}


def check(pid, prop, units, bdir, tier, t0):
    results, errors = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda u: do_unit(u, bdir), units):
            results.append(r)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viols, unconfirmed, notmine = [], [], 0
    for r in results:
        u = r["unit"]
        if "compile_error" in r:
            if sanity(bdir, u):
                viols.append({"violation": "COMPILE", "unit": u.name, "op": "compile", "fired": 0, "trace": "", "msg": "a program using only documented features does not compile: " + r["compile_error"]})
            else:
                errors.append("the library does not compile: " + r["compile_error"][:400])
            continue
        if "error" in r:
            # a run that did not finish is tried once more, alone
            if "timeout" in r["error"]:
                rc, o, e = exec_unit(u, r["exe"], timeout=u.timeout * 2)
                if rc == 0:
                    for x in lines(o):
                        (r["viol"] if "violation" in x else r["stats"]).append(dict(x, unit=u.name))
                else:
                    errors.append(r["error"])
                    continue
            else:
                errors.append(r["error"])
                continue
        n = 0
        for v in r["viol"]:
            if not prop.mine(v):
                notmine += 1
                continue
            if n >= 3:
                continue
            n += 1
            if confirm(u, r["exe"], v):
                viols.append(v)
            else:
                unconfirmed.append(v)
    if prop.post:
        viols += prop.post(results, dump)
    known, fresh = known_findings(pid), []
    for v in viols:
        if any(k.get("unit") == v["unit"] and k.get("trace") == v["trace"] for k in known):
            print("KNOWN-FINDING: property=%s %s" % (pid, v["msg"][:300]))
        else:
            fresh.append(v)
    write_evidence(pid, prop, tier, results, fresh, unconfirmed, errors, notmine, time.time() - t0)
    for i, v in enumerate(fresh[:10]):
        path = os.path.join(rdir, "%s_%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, how="python3 check.py %s --replay <this file>" % pid), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  [%s] %s: %s" % (v["unit"], v["op"], v["msg"][:700]))
    if fresh:
        return 1
    for e in errors:
        print("ERROR", e)
    for v in unconfirmed:
        print("UNCONFIRMED", v["unit"], v["op"], v["msg"][:300])
    if errors:
        return 2
    print("%s held: %s" % (pid, summary(results)))
    return 0


def total(results, k):
    return sum(int(s.get(k, 0)) for r in results for s in r["stats"])


def summary(results):
    return "%d units, %d states, %d transitions" % (len(results), total(results, "states"), total(results, "transitions"))


def write_evidence(pid, prop, tier, results, fresh, unconfirmed, errors, notmine, wall):
    stats = [s for r in results for s in r["stats"]]
    cov = {"states": total(results, "states"), "transitions": total(results, "transitions"),
           "traces_validated_against_impl": total(results, "runs"),
           "exhaustive": bool(stats) and not errors and all(s.get("complete", True) for s in stats),
           "samples": [s["sample"] for s in stats if s.get("sample")][:6],
           "bounds": prop.bounds(tier),
           "rule": prop.rule,
           "units": [{k: s[k] for k in s if k not in ("sample",)} for s in stats]}
    for k in ("fault_transitions", "failed_operations", "heap_states", "outcomes", "schedules", "observations"):
        if any(k in s for s in stats):
            cov[k] = total(results, k)
    if unconfirmed:
        cov["unconfirmed"] = unconfirmed[:5]
    if errors:
        cov["errors"] = errors[:5]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 1), "violations": len(fresh)}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
