#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C18": "Pure functions of a string: no concurrency, time, storage or other party that a simulator could control; generated inputs or proof would decide it, not schedules and faults.",
}
TECH = {
    "C01": "seeded simulation of requesting threads, cleaner and failing or slow constructors; identity and liveness of connections as invariants",
    "C02": "seeded simulation of the cleaner on a simulated clock with clock steps and failing or slow closes; eviction deadlines checked against the recorded history",
    "C03": "seeded simulation of concurrent forced cleanups, shutdowns, requests and interpreter exit; exactly-once closing checked over the history",
    "C04": "seeded simulation of threads at bytecode granularity; linearizability of the recorded history and final tree against a reference tree",
    "C05": "seeded simulation of interleaved handles with short reads and writes; exact byte accounting against a model of positions and contents",
    "C06": "seeded simulation of lock holders, waiters and storage errors; mutual exclusion as invariant, release and content checked after every block",
    "C07": "seeded simulation of operation histories with storage errors, short transfers and dropped connections; refinement of a POSIX-like reference tree",
    "C08": "seeded simulation of copies between simulated file systems with a storage error at any call; refinement and conservation against reference trees",
    "C09": "seeded simulation of moves with a storage error or a kill at any system call; no-loss invariant checked at every system call",
    "C10": "seeded simulation of removals with a storage error or a kill at any system call; conservation of everything outside the target",
    "C11": "seeded simulation of archive histories with storage errors and full disks; read-back of every stored member against a model",
    "C12": "seeded simulation with storage errors at any call; open files of the simulated system compared after every operation",
    "C13": "seeded simulation of racing makedirs and file creators; success, existence and no-loss checked after every run",
    "C14": "seeded simulation of walks with storage errors and concurrent changes elsewhere; exactness against a reference tree",
    "C15": "seeded simulation of nested scopes left in every way with storage errors; restoration checked at every exit",
    "C16": "seeded simulation of callbacks that raise, wait, re-enter and replace themselves; invocation history and a twin without callbacks as oracle",
    "C17": "seeded simulation on a clock that stands still, runs and is set; every reported time compared with the reference after every operation",
    "C19": "seeded simulation of storage on which other programs make oddly named entries, with storage errors and dropped connections; what every listed name addresses compared with the storage",
    "C20": "seeded simulation of archives and folders that other programs write and replace while threads query them; classification, listings and globs against a reference tree",
}
NOTE = ("Sampling of schedules, fault sequences and inputs on the real, unmodified modules of the working tree: a clean run is evidence, not proof. Trusted: the simulator "
        "(scheduler, clock, disk with POSIX semantics, checked against the real kernel by tools/fidelity.py) and the reference model. Pre-emption happens between "
        "lines or bytecodes of the library and at simulated system calls, locks and sleeps.")


def main():
    sys.path.insert(0, HERE)
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    doc = {"version": 1, "setup_cmd": "python3 tools/selftest.py",
           "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: the seams are the standard library's (os, io, threading, time), replaced inside the simulating process before the library is imported.",
                     "source_commits": []},
           "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "python3 check.py Cxx [--runs N --only SCENARIO]; python3 check.py --replay FILE [--trace]. ABL_REPO=DIR runs a check against another copy of the repository."}
    for p in props:
        if p in NA:
            continue
        doc["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                              "evidence_file": "evidence/%s.json" % p, "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
