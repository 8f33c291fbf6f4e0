"""One simulated run: a fresh disk, clock, scheduler and the library on top."""
import errno
import os
import random
import sys

from . import core, disk as disk_mod
from .core import Violation


def err_kind(e):
    """A stable name for the kind of failure an exception stands for."""
    from abl.vpath.base.exceptions import FileDoesNotExistError
    if isinstance(e, FileDoesNotExistError):
        return "ENOENT"
    if isinstance(e, OSError) and isinstance(e.errno, int):
        return errno.errorcode.get(e.errno, str(e.errno))
    return type(e).__name__


def show(v, n=200):
    try:
        s = repr(v)
    except Exception as e:      # a broken object is still only a value to report
        s = "<unprintable %s: %s>" % (type(v).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + "..."


class Outcome:
    """What a call did: ok(value) or err(kind)."""
    __slots__ = ("ok", "value", "kind", "exc_text", "t0", "t1")

    def __init__(self, ok, value=None, kind=None, exc_text=""):
        self.ok, self.value, self.kind, self.exc_text = ok, value, kind, exc_text

    def __repr__(self):
        return "ok(%s)" % show(self.value) if self.ok else "err(%s %s)" % (self.kind, self.exc_text)


class World:
    def __init__(self, plan, replay=None):
        self.plan = plan
        p = plan.get("sim", {})
        self.choices = core.Choices(plan["seed"], replay)
        self.sim = core.Sim(self.choices, granularity=p.get("granularity"),
                            switch_p=p.get("switch_p", 0.0), step_cap=p.get("step_cap", 400000),
                            burst_p=p.get("burst", 0.0))
        self.disk = disk_mod.Disk(self.sim)
        self.disk.shuffle_listing = bool(p.get("shuffle"))
        self.probes = {}
        core.SIM = self.sim
        disk_mod.DISK = self.disk
        self.use_cleaner = bool(p.get("cleaner"))
        import abl.vpath.base as base
        import abl.vpath.base.fs as fs
        self.base, self.fs = base, fs
        self.URI = base.URI
        self.registry = fs.CONNECTION_REGISTRY
        self.steps_ops = 0
        self.finale = None        # run by the main thread after a crash

    # ---- helpers for scenarios --------------------------------------------
    def adopt_cleaner(self, interval=None, timeout=None):
        if interval is not None:
            self.registry.clean_interval = interval
        if timeout is not None:
            self.registry.clean_timeout = timeout
        for t in core.PENDING_THREADS:
            t._sim_adopt(self.sim)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def spawn(self, fn, name):
        t = self.sim.spawn(fn, name)
        return t

    def join(self, tasks):
        for t in tasks:
            while t.state != core.DONE:
                t.joiners.append(self.sim.current)
                self.sim.block("join " + t.name)

    def sleep(self, d):
        self.sim.sleep(d)

    def now(self):
        return self.sim.wall()

    def step_clock(self, d):
        self.sim.wall_offset += d
        self.sim.log("clock-step", d)
        self.sim.count("fault:clock-step")

    def quiet(self):
        """No optional preemption inside (set-up and verification)."""
        return _Quiet(self.sim)

    def no_faults(self):
        """No storage error inside (verification; use with quiet())."""
        return _NoFaults(self.disk.faults)

    def faults(self, **kw):
        return _FaultsOn(self.disk.faults, kw)

    def call(self, label, fn, *a, **k):
        """Call the code under test; every exception is an outcome."""
        self.steps_ops += 1
        t0 = self.sim.log("call", label)
        try:
            v = fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            kind = err_kind(e)
            o = Outcome(False, None, kind, ("%s: %s" % (type(e).__name__, e))[:200])
            e.__traceback__ = None
            del e
        else:
            o = Outcome(True, v)
        o.t0 = t0
        o.t1 = self.sim.log("ret", label, "ok" if o.ok else o.kind)
        if self.sim.burst is self.sim.current:
            self.sim.burst = None
        return o

    def fail(self, kind, detail=""):
        if self.sim.in_task():
            # not an exception: the code under test must not be able to swallow it
            self.sim.log("VIOLATION", kind, detail)
            self.sim._fail("violation", (kind, str(detail)))
            self.sim.halt()
        raise Violation(kind, detail)

    def check_escapes(self):
        if self.disk.escapes:
            self.fail("escape", "touched something outside the simulated disk: %s" % self.disk.escapes[:5])


class _Quiet:
    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.old = self.sim.preempt_on
        self.sim.preempt_on = False
        self.traced = self.sim.trace_off()

    def __exit__(self, *a):
        self.sim.preempt_on = self.old
        if self.traced:
            self.sim.trace_on()


class _NoFaults:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.old = self.f.armed
        self.f.armed = False

    def __exit__(self, *a):
        self.f.armed = self.old


class _FaultsOn:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __enter__(self):
        for k, v in self.kw.items():
            setattr(self.f, k, v)
        self.f.armed = True
        self.f.fired, self.f.by = [], []
        self.f.hard = 0
        self.f.broken = None
        return self.f

    def __exit__(self, *a):
        self.f.heal()


def execute(scenario, plan, replay=None, keep_events=False):
    """Run one plan in this (expendable) process; returns a JSON-able result."""
    if plan.get("crash_env"):
        pass
    w = World(plan, replay)
    w.sim.keep_events = keep_events
    res = {"status": "ok", "kind": None, "detail": None}
    err_out = sys.stderr
    main = w.sim.spawn(lambda: scenario.run(w, plan), "main")
    w.sim.run()
    fail = w.sim.failure
    if fail is None and w.disk.escapes:
        fail = ("violation", ("escape", "touched something outside the simulated disk: %s" % w.disk.escapes[:5]))
    if fail is not None and fail[0] == "crash":
        # the simulated process is dead; judge what it left on the disk
        w.disk.power_cut()
        w.sim.failure = None
        w.probe("crashed")
        try:
            if w.finale is not None:
                w.finale()
            fail = None
        except Violation as e:
            fail = ("violation", (e.kind, e.detail))
        except Exception as e:
            import traceback
            fail = ("harness", "".join(traceback.format_exception(e)))
    if fail is not None and fail[0] == "harness" and core.REPO + "/abl" in str(fail[1]):
        # a call of the library that no scenario expects to fail raised
        fail = ("violation", ("unexpected-exception", str(fail[1])[-1500:]))
    if fail is not None:
        res["status"] = fail[0]
        if fail[0] == "violation":
            res["kind"], res["detail"] = fail[1]
        else:
            res["kind"], res["detail"] = "harness", str(fail[1])
    res["hash"] = w.sim.hash.hexdigest()
    res["ihash"] = w.sim.ihash.hexdigest()
    res["steps"] = w.sim.steps
    res["switches"] = w.sim.nswitch
    res["simtime"] = w.sim.mono
    res["stats"] = w.sim.stats
    res["probes"] = w.probes
    res["ops"] = w.steps_ops
    res["syscalls"] = w.disk.calls
    if res["status"] != "ok" or keep_events:
        res["log"] = {s: {str(k): v for k, v in d.items()} for s, d in w.choices.log.items()}
        if keep_events:
            res["events"] = w.sim.events
    return res
