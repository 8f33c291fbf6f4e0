#!/usr/bin/env python3
"""Run many plans of one scenario and cluster every violation (development aid)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.reexec()
import re, json
from concurrent.futures import ProcessPoolExecutor
os.chdir("/")
boot.load()
import checks
from sim import runner


def main():
    name, n = sys.argv[1], int(sys.argv[2])
    filt = sys.argv[3] if len(sys.argv) > 3 else None
    sc = checks.SCENARIOS[name]
    seen = {}
    cnt = {}
    # a plain striped pool
    pids = []
    W = 8
    for wk in range(W):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = []
            for i in range(wk, n, W):
                plan = runner.make_plan(sc, runner.seed_for(os.environ.get("VERIF_SEED", "1"), "survey", name, i), "quick")
                if filt and not re.search(filt, json.dumps(plan)):
                    continue
                res = runner.run_one(sc, plan)
                if res["status"] != "ok":
                    out.append([i, res["status"], res["kind"], res["detail"], len(plan["ops"])])
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        pids.append((pid, r))
    rows = []
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            rows += json.loads(f.read())
        os.waitpid(pid, 0)
    rows.sort(key=lambda x: (x[4], x[0]))
    for i, st, kind, detail, nops in rows:
        key = kind + " " + re.sub(r"'[^']*'|\d+|\[.*?\]", "_", detail or "")[:110]
        cnt[key] = cnt.get(key, 0) + 1
        seen.setdefault(key, (i, detail))
    for k in sorted(cnt, key=lambda k: -cnt[k])[:40]:
        print(cnt[k], "run", seen[k][0], "::", k.split()[0], "::", (seen[k][1] or "")[-1500:] if k.startswith("harness") else (seen[k][1] or "")[:400])
    print(len(rows), "of", n)


main()
