#!/usr/bin/env python3
"""Decide one property by seeded simulation.

  check.py C01                 run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       replay a recorded violation; exit 1 if it reproduces
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot
boot.reexec()

import argparse
import json
import subprocess
import time

_time = time.monotonic
T0 = _time()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", help="only this scenario")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--hashes", help="write run hashes here (determinism self-check)")
    ap.add_argument("--trace", action="store_true", help="with --replay: print the event log")
    a = ap.parse_args()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    os.chdir("/")
    boot.load()
    import checks
    from sim import runner
    if a.replay:
        return replay(a, checks, runner)
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    ck = checks.CHECKS[prop]
    scens = ck["scenarios"]
    if a.only:
        scens = [(s, 1) for s, _ in scens if s.NAME == a.only]
    n = a.runs or ck["runs"][tier]
    cap = {"quick": 240.0, "thorough": 780.0}[tier]
    print("check %s tier=%s VERIF_SEED=%d runs=%d scenarios=%s" %
          (prop, tier, seed, n, [s.NAME for s, _ in scens]), flush=True)
    known = runner.Known(os.path.join(HERE, "known_findings.txt"), prop)
    b = runner.run_batch(scens, prop, seed, n, tier, a.workers, cap, known)
    wall = _time() - T0
    for k in sorted(known.hits):
        d = known.items[k]
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    # listed findings are reported even when this seed did not sample them
    for k, d in enumerate(known.items):
        if k not in known.hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    write_evidence(prop, tier, seed, ck, b, wall, scens, runner)
    if b.violations:
        i, name, res = b.violations[0]
        sc = [s for s, _ in scens if s.NAME == name][0]
        plan = runner.make_plan(sc, runner.seed_for(seed, prop, name, i), tier)
        print("violation in run %d (%s): %s: %s" % (i, name, res["kind"], res["detail"]), flush=True)
        path = report(prop, sc, plan, res, seed, tier, i, a, runner)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if b.harness:
        i, name, res = b.harness[0]
        print("HARNESS ERROR in run %s (%s): %s\n%s" % (i, name, res["kind"], res["detail"]))
        return 3
    if b.truncated:
        print("note: wall cap reached after %d runs" % b.runs)
    if b.runs < min(n, 50):
        print("HARNESS ERROR: only %d runs were made" % b.runs)
        return 3
    print("ok: %s held on %d runs (%d distinct non-trivial), %.1f s" % (prop, b.runs, len(b.nontrivial), _time() - T0))
    return 0


def report(prop, sc, plan, res, seed, tier, i, a, runner):
    if a.no_min or (res["detail"] or "").startswith("used "):
        best, rlog, final = plan, None, runner.run_one(sc, plan, keep_events=True)
        tried = 0
    else:
        best, rlog, final, tried = runner.minimise(sc, plan, res, 60.0 if tier == "quick" else 180.0)
        if final.get("kind") != res["kind"]:
            best, rlog = plan, None
            final = runner.run_one(sc, plan, keep_events=True)
    out = os.path.join(HERE, "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "%s-seed%d-run%d.json" % (prop, seed, i))
    doc = {"property": prop, "scenario": sc.NAME, "verif_seed": seed, "run": i, "tier": tier,
           "original_seed": plan["seed"], "plan": best, "replay": rlog,
           "expect": {"kind": final.get("kind"), "detail": final.get("detail"), "hash": final.get("hash")},
           "minimise_candidates": tried, "ops_before": len(plan.get("ops", [])),
           "ops_after": len(best.get("ops", [])), "events": final.get("events")}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    print("minimised: %d -> %d operations, %d recorded decisions: %s: %s" % (
        doc["ops_before"], doc["ops_after"],
        sum(len(d) for d in (rlog or {}).values()), final.get("kind"), final.get("detail")))
    p = subprocess.run([sys.executable, "-B", "-s", os.path.join(HERE, "check.py"), "--replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 1 or "REPRODUCED exactly" not in p.stdout:
        print("warning: replay in a fresh process: exit %d\n%s" % (p.returncode, p.stdout[-2000:]))
    else:
        print("replayed in a fresh process: reproduced exactly")
    return path


def replay(a, checks, runner):
    with open(a.replay) as f:
        doc = json.load(f)
    sc = checks.SCENARIOS[doc["scenario"]]
    r = runner.run_one(sc, doc["plan"], doc["replay"], keep_events=True)
    if a.trace:
        for e in r.get("events", []):
            print(e)
    print("%s: %s: %s" % (r["status"], r["kind"], r["detail"]))
    if r["status"] == "violation":
        same = r.get("hash") == doc["expect"]["hash"]
        print("REPRODUCED %s" % ("exactly (event log hash %s)" % r["hash"] if same else "with another event log"))
        print("VIOLATION property=%s replay=%s" % (doc["property"], a.replay))
        return 1
    return 0 if r["status"] == "ok" else 3


def write_evidence(prop, tier, seed, ck, b, wall, scens, runner):
    faults = {k[6:]: v for k, v in sorted(b.stats.items()) if k.startswith("fault:")}
    samples = []
    for s, _ in scens:
        pl = runner.make_plan(s, runner.seed_for(seed, prop, s.NAME, 0), tier)
        samples.append(pl)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": len(b.nontrivial),
            "rule": ck["rule"] + "  Distinct: SHA-1 of the run's full event log (every library call and its "
                    "outcome, system call, fault, thread switch) differs.",
            "samples": samples,
            "runs_per_scenario": b.per_scenario,
            "nontrivial_runs": b.nontrivial_runs,
            "distinct_event_logs": len(b.hashes),
            "distinct_interleavings": len(b.ihashes),
            "interleaving_measure": "SHA-1 over the sequence of (from thread, to thread, function:line) of all switches in a run",
            "runs_per_hour (each with a seed of its own)": round(b.runs / max(wall, 0.001) * 3600),
            "simulated_seconds": round(b.simtime, 3),
            "scheduler_steps": b.steps, "thread_switches": b.switches,
            "library_calls_checked": b.ops, "simulated_syscalls": b.syscalls,
            "faults_injected": faults,
            "other_counters": {k: v for k, v in sorted(b.stats.items()) if not k.startswith("fault:")},
            "probes": dict(sorted(b.probes.items())),
            "known_finding_hits": b.known,
            "truncated_by_wall_cap": b.truncated,
            "real_components": ck["real"],
            "stubbed_components": ck["stub"],
        },
        "assumptions": ck["assumptions"],
        "wall_s": round(wall, 3),
        "violations": len(b.violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
