#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE]

Rebuilds the drivers of property ID from /repo's current working tree, runs
them, merges their evidence into /verif/evidence/ID.json.  exit 0: held on
everything explored; exit 1: a VIOLATION line was printed; exit 2: no answer.
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
from props import PROPS

def main():
    a = sys.argv[1:]
    replay = None
    if "--replay" in a:
        i = a.index("--replay"); replay = a[i + 1]; del a[i:i + 2]
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    P = [p for p in PROPS if p["id"] == pid][0]
    t0 = time.time()
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    runs = P["runs"]
    bins = B.build(sorted(set(r[0] for r in runs)))
    if bins is None:
        print("build failed"); return 2
    built = time.time() - t0
    ev = os.path.join(HERE, "evidence", pid + ".json")
    parts, rc = [], 0
    for k, (name, extra) in enumerate(runs):
        part = os.path.join(HERE, "evidence", "." + pid + "." + str(k))
        cmd = [bins[name], "--property", pid, "--tier", tier, "--evidence", part,
               "--replay-out", os.path.join(HERE, "replays", pid + ".txt"),
               "--known", os.path.join(HERE, "known_findings.txt")] + extra
        if tier == "quick":
            cmd += ["--budget", str(P.get("quick_budget", 240))]
        else:
            cmd += ["--budget", str(P.get("thorough_budget", 780) // len(runs))]
        if replay:
            cmd += ["--replay", replay]
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:handle_abort=0:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        r = subprocess.run(cmd, env=env).returncode
        if os.path.exists(part):
            parts.append(json.load(open(part))); os.unlink(part)
        if r == 1:
            rc = 1; break
        if r:
            print("driver %s ended with status %d" % (name, r)); rc = 2; break
    if replay:
        return rc
    if parts:
        m = parts[0]
        for p in parts[1:]:
            for key, v in p["coverage"].items():
                o = m["coverage"].get(key)
                if isinstance(v, bool): m["coverage"][key] = bool(o) and v
                elif isinstance(v, int): m["coverage"][key] = (o or 0) + v
                elif isinstance(v, list): m["coverage"][key] = (o or []) + v
                elif isinstance(v, dict): m["coverage"].setdefault(key, {}).update(v)
                else: m["coverage"][key] = v
            m["assumptions"] = m.get("assumptions", []) + [x for x in p.get("assumptions", []) if x not in m.get("assumptions", [])]
            m["violations"] = m.get("violations", 0) + p.get("violations", 0)
        m["level"] = P["level"]
        m["coverage"]["build_s"] = round(built, 2)
        m["wall_s"] = round(time.time() - t0, 2)
        json.dump(m, open(ev, "w"), indent=1)
    return rc

if __name__ == "__main__":
    sys.exit(main())
