#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the explorers of a property from /repo's working tree, runs them, confirms what
they report by replaying it, and writes evidence/<property>.json.
Exit 0: held on everything explored (known findings are named).  Exit 1: a VIOLATION line.
Exit 2: no answer (for instance /repo does not build).
"""
import sys, os, json, time, subprocess, importlib, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import xbuild
from registry import CHECKS

KEYS = ("cases", "executions", "states", "transitions", "nontrivial", "distinct_outcomes", "skipped_violations")


def known():
    out = {}
    p = os.path.join(V, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\w+) sig=\[(.*?)\] (.*)$", l.strip())
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def match(pat, sig):
    """* in a pattern stands for any characters; nothing else is special"""
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), sig, re.S) is not None


def run(cmd, extra, timeout):
    try:
        r = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd=V, errors="replace", text=True)
    except subprocess.TimeoutExpired:
        print("ERROR: %s did not end within %d s" % (" ".join(cmd), timeout))
        sys.exit(2)
    for l in r.stdout.split("\n"):
        if l.startswith("MCRESULT "):
            return json.loads(l[9:])
    print("ERROR: %s gave no result (exit %s)\n%s" % (" ".join(cmd + extra), r.returncode, r.stdout[-3000:]))
    sys.exit(2)


def main():
    a = sys.argv[1:]
    prop, tier, rep = a[0], os.environ.get("VERIF_TIER", "quick"), None
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--replay": rep = json.load(open(a[i + 1]))
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    c = CHECKS[prop]
    try:
        progs = c["build"]()
    except SystemExit:
        print("ERROR: build failed")
        sys.exit(2)
    extra = ["--thorough"] if tier == "thorough" else []
    tmo = 20 * 3600 if tier == "thorough" else 880
    if rep:
        cmd = progs[rep["program"]]
        r = run(cmd, rep["args"] + ["--replay", "%s:%d" % (rep["family"], rep["idx"])], tmo)
        hit = [v for v in r["violations"] if v["sig"] == rep["sig"]]
        for v in hit: print("VIOLATION property=%s replay=%s\n  %s" % (prop, a[a.index("--replay") + 1], v["msg"]))
        sys.exit(1 if hit else 0)
    tot = {k: 0 for k in KEYS}
    counters, samples, viol = {}, [], []
    for name, cmd in progs.items():
        t1 = time.time()
        r = run(cmd, extra, tmo)
        for k in KEYS: tot[k] += r.get(k, 0)
        for k, n in r["counters"].items(): counters[k] = counters.get(k, 0) + n
        samples += r["samples"][:6]
        for v in r["violations"]: viol.append((name, cmd, v))
        print("%s: %s; %.0f s" % (name, ", ".join("%s %d" % (k, r.get(k, 0)) for k in KEYS[:6]), time.time() - t1))
    kn = known().get(prop, [])
    seen, bad, unconfirmed = {}, [], 0
    rd = os.path.join(V, "replays")
    todo = []
    for name, cmd, v in viol:
        for pat, what in kn:
            if match(pat, v["sig"]):
                seen.setdefault((pat, what), 0)
                seen[(pat, what)] += 1
                break
        else:
            todo.append((name, cmd, v))
    n_try = 0
    for name, cmd, v in todo:
        if len(bad) >= 5 or n_try >= 12: break
        n_try += 1
        # replay before report: the same case has to fail the same way, alone
        r = run(cmd, extra + ["--replay", "%s:%d" % (v["family"], v["idx"])], tmo)
        if not any(x["sig"] == v["sig"] for x in r["violations"]):
            unconfirmed += 1
            print("not confirmed on replay: %s (%s)" % (v["sig"], v["msg"][:300]))
            continue
        os.makedirs(rd, exist_ok=True)
        p = os.path.join("replays", "%s-%d.json" % (prop, len(bad)))
        json.dump(dict(property=prop, program=name, args=extra, family=v["family"], idx=v["idx"], sig=v["sig"], msg=v["msg"]),
                  open(os.path.join(V, p), "w"), indent=1)
        bad.append((p, v))
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
               evaluations=tot["cases"], distinct_nontrivial=tot["nontrivial"], distinct_outcomes=tot["distinct_outcomes"],
               rule=c["rule"], bounds=c.get("bounds_" + tier, c.get("bounds", "")), counters=counters, samples=samples[:16],
               exhaustive=True, explanation=c.get("explanation", "Every case of the stated bounded space was executed on the real code, compiled from /repo's working tree; nothing is sampled."))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=c.get("level", "model_checking"),
                   coverage=cov, assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(todo) - unconfirmed,
                   known_findings=[w for _, w in seen]),
              open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for (pat, what), n in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for p, v in bad:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s: %s" % (v["sig"], v["msg"]))
    if bad:
        print("%d distinct violations in all (%d replayed); replay one with: python3 check.py %s --replay %s" % (len(todo), len(bad), prop, bad[0][0]))
    sys.exit(1 if bad else 0)


main()
