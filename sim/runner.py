"""Runs many simulated executions in forked children, minimises and replays failures."""
import hashlib
import json
import mmap
import os
import resource
import select
import signal
import struct
import sys
import time
import random

from . import core, world

_mono = core.REAL_MONOTONIC
CHILD_TIMEOUT = 150.0
CPU_LIMIT = 60


def make_plan(scenario, seed, tier):
    rng = random.Random("%s/gen" % seed)
    plan = scenario.gen(rng, tier)
    plan["seed"] = seed
    plan["scenario"] = scenario.NAME
    return json.loads(json.dumps(plan))


def seed_for(base, prop, name, i):
    return "%s/%s/%s/%d" % (base, prop, name, i)


def run_one(scenario, plan, replay=None, keep_events=False, timeout=CHILD_TIMEOUT):
    """One simulated run in a child process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT))
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            try:
                res = world.execute(scenario, plan, replay, keep_events)
            except BaseException as e:
                import traceback
                res = {"status": "harness", "kind": "harness",
                       "detail": "".join(traceback.format_exception(e))}
            data = json.dumps(res).encode()
            mv = memoryview(data)
            while mv:
                n = REAL_WRITE(w, mv)
                mv = mv[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    end = _mono() + timeout
    dead = False
    while True:
        left = end - _mono()
        if left <= 0:
            dead = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 5.0))
        if rd:
            d = REAL_READ(r, 1 << 16)
            if not d:
                break
            chunks.append(d)
    if dead:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not dead and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) and not chunks \
            and _mono() > end - timeout + CPU_LIMIT * 0.8:
        return {"status": "violation", "kind": "no-progress", "log": {},
                "detail": "used %d s of processor time without finishing (a run takes well below 1 s)" % CPU_LIMIT}
    if dead:
        return {"status": "violation", "kind": "no-progress", "log": {},
                "detail": "used %d s of real time without finishing or going on (a run takes well below 1 s)" % timeout}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"status": "harness", "kind": "no-result", "detail": "child died without a result"}


REAL_READ = os.read
REAL_WRITE = os.write


class Known:
    """Known findings: violations of the listed kinds do not stop a check."""

    def __init__(self, path, prop):
        self.items = []
        self.hits = {}
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("known:"):
                        d = json.loads(line[6:])
                        if d["property"] == prop:
                            self.items.append(d)

    def match(self, scenario, res):
        import re
        for n, d in enumerate(self.items):
            if d.get("scenario") in (None, scenario) and d["kind"] == res["kind"] \
                    and re.search(d.get("detail", ""), res["detail"] or "", re.S):
                self.hits[n] = self.hits.get(n, 0) + 1
                return n
        return None


class Batch:
    """Aggregate over the runs of one batch."""

    def __init__(self):
        self.runs = 0
        self.simtime = 0.0
        self.steps = self.switches = self.ops = self.syscalls = 0
        self.stats = {}
        self.probes = {}
        self.ihashes = set()
        self.hashes = set()
        self.nontrivial = set()
        self.nontrivial_runs = 0
        self.per_scenario = {}
        self.violations = []
        self.harness = []
        self.known = 0
        self.samples = []
        self.truncated = False

    def add(self, i, name, r, nontrivial):
        self.runs += 1
        self.per_scenario[name] = self.per_scenario.get(name, 0) + 1
        if "hash" not in r:
            return
        self.simtime += r["simtime"]
        for k in ("steps", "switches", "ops", "syscalls"):
            setattr(self, k, getattr(self, k) + r[k])
        for src, dst in ((r["stats"], self.stats), (r["probes"], self.probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        self.ihashes.add(r["ihash"])
        self.hashes.add(r["hash"])
        if nontrivial:
            self.nontrivial_runs += 1
            self.nontrivial.add(r["hash"])


def default_nontrivial(r):
    return r.get("ops", 0) >= 2


def run_batch(scens, prop, base_seed, n_runs, tier, workers, wall_cap, known, first=0, progress=None):
    """scens: list of (scenario, weight).  Deterministic in (base_seed, n_runs):
    run i always does the same thing, whichever worker executes it."""
    wheel = []
    for sc, wt in scens:
        wheel += [sc] * wt
    limit = mmap.mmap(-1, 8)
    limit[:8] = struct.pack("q", first + n_runs)
    end = _mono() + wall_cap
    pipes = []
    for wk in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for pr, _ in pipes:
                    os.close(pr)
                for i in range(first + wk, first + n_runs, workers):
                    if i > struct.unpack("q", limit[:8])[0]:
                        break
                    if _mono() > end:
                        REAL_WRITE(w, b'{"trunc":1}\n')
                        break
                    sc = wheel[i % len(wheel)]
                    plan = make_plan(sc, seed_for(base_seed, prop, sc.NAME, i), tier)
                    res = run_one(sc, plan)
                    if res["status"] == "violation" and known.match(sc.NAME, res) is None:
                        cur = struct.unpack("q", limit[:8])[0]
                        if i < cur:
                            limit[:8] = struct.pack("q", i)
                    if res["status"] != "violation":
                        res.pop("log", None)
                    data = json.dumps([i, sc.NAME, res]).encode() + b"\n"
                    mv = memoryview(data)
                    while mv:
                        mv = mv[REAL_WRITE(w, mv):]
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((r, pid))
    b = Batch()
    bufs = {r: b"" for r, _ in pipes}
    open_ = {r for r, _ in pipes}
    byname = {sc.NAME: sc for sc, _ in scens}
    while open_:
        rd, _, _ = select.select(sorted(open_), [], [], 5.0)
        for r in rd:
            d = REAL_READ(r, 1 << 16)
            if not d:
                open_.discard(r)
                continue
            bufs[r] += d
            *lines, bufs[r] = bufs[r].split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if isinstance(m, dict):
                    b.truncated = True
                    continue
                i, name, res = m
                sc = byname[name]
                nt = getattr(sc, "nontrivial", default_nontrivial)
                b.add(i, name, res, "hash" in res and nt(res))
                if res["status"] == "violation":
                    kn = known.match(name, res)
                    if kn is not None:
                        b.known += 1
                    else:
                        b.violations.append((i, name, res))
                elif res["status"] == "harness":
                    b.harness.append((i, name, res))
    bad = 0
    for r, pid in pipes:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    if bad:
        b.harness.append((-1, "-", {"status": "harness", "kind": "worker", "detail": "%d workers died" % bad}))
    b.violations.sort(key=lambda t: t[0])
    b.harness.sort(key=lambda t: t[0])
    return b


# --------------------------------------------------------------------------
def _try(sc, plan, kind, replay, seeds):
    """Does this plan still show the violation?  Returns (plan, result) or None."""
    if replay is not None:
        r = run_one(sc, plan, replay, timeout=CHILD_TIMEOUT)
        if r["status"] == "violation" and r["kind"] == kind:
            return plan, r
    for s in seeds:
        p = dict(plan)
        p["seed"] = s
        r = run_one(sc, p, timeout=CHILD_TIMEOUT)
        if r["status"] == "violation" and r["kind"] == kind:
            return p, r
    return None


def minimise(sc, plan, res, budget=60.0):
    end = _mono() + budget
    kind = res["kind"]
    best, bres = plan, res
    tried = 0
    # 1. operations
    n = 2
    extra = 6 if plan.get("sim", {}).get("switch_p") or res.get("log") else 0
    while len(best.get("ops", [])) >= 1 and _mono() < end:
        ops = best["ops"]
        size = max(1, len(ops) // n)
        done = False
        i = 0
        while i < len(ops):
            if _mono() > end:
                break
            cand = dict(best)
            cand["ops"] = ops[:i] + ops[i + size:]
            tried += 1
            seeds = [best["seed"]] + ["%s~%d" % (plan["seed"], k) for k in range(extra)]
            got = _try(sc, cand, kind, bres.get("log"), seeds)
            if got:
                best, bres = got
                done = True
                ops = best["ops"]
                continue
            i += size
        if not done:
            if size == 1:
                break
            n = min(len(ops), n * 2)
        else:
            n = max(2, n - 1)
    # 2. decisions
    log = bres.get("log") or {}
    flat = [(s, k, v) for s, d in log.items() for k, v in d.items()]

    def build(fl):
        out = {}
        for s, k, v in fl:
            out.setdefault(s, {})[k] = v
        return out
    if flat:
        r = run_one(sc, best, build(flat), timeout=CHILD_TIMEOUT)
        if not (r["status"] == "violation" and r["kind"] == kind):
            flat = None
    n = 2
    while flat and _mono() < end:
        size = max(1, len(flat) // n)
        done = False
        i = 0
        while i < len(flat):
            if _mono() > end:
                break
            cand = flat[:i] + flat[i + size:]
            tried += 1
            r = run_one(sc, best, build(cand), timeout=CHILD_TIMEOUT)
            if r["status"] == "violation" and r["kind"] == kind:
                flat = cand
                bres = r
                done = True
                continue
            i += size
        if not done:
            if size == 1:
                break
            n = min(len(flat), n * 2)
        else:
            n = max(2, n - 1)
    replay = build(flat) if flat is not None else None
    if replay is None:
        replay = None
    final = run_one(sc, best, replay, keep_events=True, timeout=CHILD_TIMEOUT)
    return best, replay, final, tried
