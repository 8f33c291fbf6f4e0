#!/usr/bin/env python3
"""Set-up: does the library load from the working tree, and is one seed one exactly repeatable run?

Runs the same seeds of every scenario in two processes with different hash seeds and address layouts and compares the full traces.
With --strict a difference is an error; as set-up command it only reports (a changed library may be what is not repeatable).
"""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(seeds):
    from sim import boot
    os.chdir("/")
    boot.load()
    import checks
    from sim import runner
    out = {}
    for prop, c in sorted(checks.CHECKS.items()):
        for scen, _ in c["scenarios"]:
            for i in seeds:
                plan = runner.make_plan(scen, runner.seed_for(1, prop, scen.NAME, i), "quick")
                r = runner.run_one(scen, plan)
                out["%s/%s/%d" % (prop, scen.NAME, i)] = [r["status"], r.get("kind"), r.get("hash")]
    return out


def main():
    if "--one" in sys.argv:
        from sim import boot
        boot.reexec()
        print(json.dumps(one(range(12))))
        return 0
    res = []
    procs = []
    for seed in ("1", "4711"):
        procs.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), "--one"], env=dict(os.environ, SIM_HASHSEED=seed), stdout=subprocess.PIPE, cwd=HERE))
    for p in procs:
        out = p.communicate()[0]
        if p.returncode:
            print("self-test could not run")
            return 2 if "--strict" in sys.argv else 0
        res.append(json.loads(out))
    bad = [k for k in res[0] if res[0][k] != res[1].get(k)]
    print("self-test: %d runs of %d scenarios repeated in another process, %d differ" % (len(res[0]), len({k.rsplit("/", 1)[0] for k in res[0]}), len(bad)))
    for k in bad[:5]:
        print("  %s: %s / %s" % (k, res[0][k], res[1].get(k)))
    return 2 if bad and "--strict" in sys.argv else 0


if __name__ == "__main__":
    sys.exit(main())
