"""Deterministic simulator core: choices, virtual clock, cooperative scheduler.

Real OS threads carry the simulated tasks, but exactly one of them holds the
baton at any time and only the simulator decides who gets it next.  Every
choice (preemption, who runs next, fault, directory order ...) is drawn from a
named stream of one seeded PRNG and logged; a replay feeds the log back.
"""
import _thread
import hashlib
import os
import random
import sys
import time as _time_mod

REPO = os.environ.get("ABL_REPO", "/repo")
TRACE_PREFIX = os.path.join(REPO, "abl") + os.sep

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_get_ident = _thread.get_ident

EPOCH = 1600000000.0


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


# --------------------------------------------------------------------------
class Choices:
    """Named streams of choices.  Value 0 is always the default."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = None
        if replay is not None:
            self.replay = {s: {int(k): v for k, v in d.items()} for s, d in replay.items()}
        self.rngs = {}
        self.counters = {}
        self.log = {}

    def rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random("%s/%s" % (self.seed, stream))
        return r

    def pick(self, stream, draw):
        """One choice; `draw(rng)` returns a small int, 0 being the default."""
        i = self.counters.get(stream, 0)
        self.counters[stream] = i + 1
        if self.replay is not None:
            v = self.replay.get(stream, {}).get(i, 0)
        else:
            v = draw(self.rng(stream))
        if v:
            self.log.setdefault(stream, {})[i] = v
        return v


# --------------------------------------------------------------------------
RUNNABLE, BLOCKED, SLEEPING, DONE = "runnable", "blocked", "sleeping", "done"


class Task:
    __slots__ = ("id", "name", "fn", "daemon", "state", "baton", "wake", "started",
                 "exc", "joiners", "thread_obj", "timed_out", "waiting_on", "ident", "cp")

    def __init__(self, id, name, fn, daemon, thread_obj=None):
        self.id, self.name, self.fn, self.daemon = id, name, fn, daemon
        self.state = RUNNABLE
        self.baton = _real_allocate()
        self.baton.acquire()
        self.wake = None
        self.started = False
        self.exc = None
        self.joiners = []
        self.thread_obj = thread_obj
        self.timed_out = False
        self.waiting_on = None
        self.ident = None
        self.cp = 0


SIM = None           # the running simulation, if any
PENDING_THREADS = []  # SimThread objects started while no simulation was running


class Sim:
    def __init__(self, choices, granularity="line", switch_p=0.0, step_cap=2000000,
                 trace_prefix=TRACE_PREFIX, burst_p=0.0):
        self.choices = choices
        self.mono = 0.0           # monotonic simulated seconds
        self.wall_offset = EPOCH  # wall clock = mono + wall_offset
        self.tasks = []
        self.current = None
        self.main_baton = _real_allocate()
        self.main_baton.acquire()
        self.over = False
        self.failure = None       # ("violation"|"harness"|"crash", payload)
        self.steps = 0
        self.step_cap = step_cap
        self.granularity = granularity
        self.switch_p = switch_p
        self.burst_p = burst_p    # how often who gets to run by a switch runs on to the end of its call
        self.burst = None         # the task that does
        self.trace_prefix = trace_prefix
        self.preempt_on = True
        self.seq = 0
        self.nswitch = 0
        self.hash = hashlib.sha1()
        self.ihash = hashlib.sha1()   # interleaving only
        self.events = []
        self.keep_events = True
        self.by_ident = {}
        self.daemon_only = 0
        self.stats = {}
        self.crashed = False
        self.traced_codes = {}
        self.loc = ""
        self._gap = None

    # ---- bookkeeping -----------------------------------------------------
    def log(self, *parts):
        """Event log; must never draw a choice."""
        self.seq += 1
        line = "%d %s %s" % (self.seq, self.current.name if self.current else "-", " ".join(map(str, parts)))
        self.hash.update(line.encode("utf-8", "replace"))
        self.hash.update(b"\n")
        if self.keep_events:
            self.events.append(line)
        return self.seq

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def wall(self):
        return self.mono + self.wall_offset

    def in_task(self):
        return self.current is not None and self.current.ident == _real_get_ident()

    # ---- tasks -----------------------------------------------------------
    def spawn(self, fn, name=None, daemon=False, thread_obj=None):
        t = Task(len(self.tasks), name or "t%d" % len(self.tasks), fn, daemon, thread_obj)
        self.tasks.append(t)
        return t

    def _boot(self, task):
        task.baton.acquire()
        task.ident = _real_get_ident()
        self.by_ident[task.ident] = task
        if task.thread_obj is not None:
            import threading
            threading._active[task.ident] = task.thread_obj
        try:
            if not self.over:
                if self.granularity:
                    sys.settrace(self._trace)
                task.fn()
        except Violation as e:
            self._fail("violation", (e.kind, e.detail))
        except BaseException as e:
            task.exc = e
            if not task.daemon and task.thread_obj is None:
                import traceback
                self._fail("harness", "".join(traceback.format_exception(e)))
            else:
                self.log("thread-died", type(e).__name__)
                self.count("thread_died")
        finally:
            sys.settrace(None)
            task.state = DONE
            if not self.over:
                for j in task.joiners:
                    self._wake(j)
                task.joiners = []
                self._leave()
            else:
                self._hand_to_main()

    def _fail(self, cls, payload):
        if self.failure is None:
            self.failure = (cls, payload)
        if cls == "crash":
            self.crashed = True
        self.over = True

    def halt(self):
        """End of the run: wake the main thread and never run this one again
        (no finally clause, no except clause: exactly what a kill does)."""
        sys.settrace(None)
        self.over = True
        self._hand_to_main()
        lk = _real_allocate()
        lk.acquire()
        while True:
            lk.acquire()

    def crash(self):
        self._fail("crash", "crash")
        self.halt()

    def _hand_to_main(self):
        if not getattr(self, "_main_released", False):
            self._main_released = True
            self.main_baton.release()

    def _resume(self, task):
        self.current = task
        if not task.started:
            task.started = True
            _real_start(self._boot, (task,))
        task.baton.release()

    def run(self):
        """Called by the (untraced) main thread; returns when all tasks ended."""
        global SIM
        assert SIM is self
        if not any(not t.daemon for t in self.tasks):
            return
        nxt = self._choose(forced=True)
        if nxt is None:
            return
        self._resume(nxt)
        self.main_baton.acquire()
        self.current = None

    # ---- scheduling ------------------------------------------------------
    def _runnable(self):
        return [t for t in self.tasks if t.state == RUNNABLE]

    def _choose(self, forced):
        while True:
            if not any(t.state != DONE and not t.daemon for t in self.tasks):
                return None
            r = self._runnable()
            if r:
                if len(r) == 1:
                    return r[0]
                n = len(r)
                v = self.choices.pick("forced", lambda g: g.randrange(n)) % n
                return r[v]
            if not self._advance():
                blocked = [(t.name, str(t.waiting_on)) for t in self.tasks
                           if t.state == BLOCKED and not t.daemon]
                self._fail("violation", ("deadlock", "all threads are blocked for ever: %s" % (blocked,)))
                return None

    def _advance(self):
        """Jump the clock to the next timer."""
        sl = [t for t in self.tasks if t.wake is not None and t.state in (SLEEPING, BLOCKED)]
        if not sl:
            return False
        w = min(t.wake for t in sl)
        if all(t.daemon for t in sl):
            self.daemon_only += 1
            if self.daemon_only > 4000:
                return False
        else:
            self.daemon_only = 0
        if w > self.mono:
            self.mono = w
        for t in sl:
            if t.wake <= self.mono:
                t.timed_out = t.state == BLOCKED
                t.wake = None
                t.state = RUNNABLE
        return True

    def _wake(self, task):
        if task.state in (BLOCKED, SLEEPING):
            task.state = RUNNABLE
            task.wake = None

    def _leave(self):
        """The current task ended: pass the baton on."""
        nxt = self._choose(forced=True)
        if nxt is None or self.over:
            self.over = True
            self._hand_to_main()
        else:
            self._resume(nxt)

    def _switch_to(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.nswitch += 1
        self.ihash.update(("%d>%d@%s;" % (me.id, nxt.id, self.loc)).encode())
        self._resume(nxt)
        me.baton.acquire()
        if self.over:
            self.halt()

    def block(self, what, timeout=None):
        """Park the current task; True if woken, False on timeout."""
        me = self.current
        me.state = BLOCKED
        me.waiting_on = what
        me.timed_out = False
        if timeout is not None:
            me.wake = self.mono + timeout
        self._park()
        me.waiting_on = None
        return not me.timed_out

    def sleep(self, d):
        me = self.current
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        me.state = SLEEPING
        me.wake = self.mono + d
        self._park()

    def _park(self):
        nxt = self._choose(forced=True)
        if nxt is None:
            self.halt()
        self._switch_to(nxt)

    def yield_point(self, where=""):
        """A place where the scheduler may run somebody else."""
        if self.over:
            self.halt()
        self.steps += 1
        if self.steps > self.step_cap:
            self._fail("violation", ("no-progress", "more than %d steps without finishing" % self.step_cap))
            self.halt()
        if not self.preempt_on or not self.switch_p:
            return
        r = [t for t in self.tasks if t.state == RUNNABLE and t is not self.current]
        if not r:
            return
        n = len(r)
        p = self.switch_p if self.burst is not self.current else 0.002
        burst = False

        def draw(g):
            nonlocal burst
            if g.random() >= p:
                return 0
            burst = g.random() < self.burst_p
            return 1 + g.randrange(n)
        v = self.choices.pick("sched", draw)
        if v:
            # relative to the current task, so that a replay means the same thing
            cid = self.current.id
            r.sort(key=lambda t: (t.id <= cid, t.id))
            self.loc = where
            to = r[(v - 1) % n]
            # only a matter of how likely further switches are, which a replay doesn't ask
            self.burst = to if burst else None
            self._switch_to(to)

    # ---- tracing ---------------------------------------------------------
    def _trace(self, frame, event, arg):
        if self.over:
            self.halt()
        code = frame.f_code
        t = self.traced_codes.get(code)
        if t is None:
            t = self.traced_codes[code] = code.co_filename.startswith(self.trace_prefix)
        if not t:
            return None
        if self.granularity == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self.yield_point("%s:%d" % (code.co_name, frame.f_lineno or 0))
        if self.granularity == "call":
            return None
        return self._local_trace

    def trace_off(self):
        """-> whether it was on; for set-up and verification inside a task"""
        on = bool(self.granularity) and self.in_task() and sys.gettrace() is not None
        if on:
            sys.settrace(None)
        return on

    def trace_on(self):
        sys.settrace(self._trace)

    def _local_trace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.yield_point("%s:%d" % (frame.f_code.co_name, frame.f_lineno or 0))
        return self._local_trace


# --------------------------------------------------------------------------
# primitives put in place of threading's and time's
def _sim():
    s = SIM
    if s is not None and s.current is not None and s.current.ident == _real_get_ident():
        return s
    return None


class SimLock:
    """Stands in for threading.Lock."""

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is not None:
            s.yield_point("acquire")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if s is None:
            raise RuntimeError("real deadlock: simulated lock contended outside the simulation")
        deadline = None if timeout is None or timeout < 0 else s.mono + timeout
        s.count("lock_waits")
        while self._locked:
            self._waiters.append(s.current)
            ok = s.block("lock", None if deadline is None else max(0.0, deadline - s.mono))
            if s.current in self._waiters:
                self._waiters.remove(s.current)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = SIM
        if s is not None:
            for t in self._waiters:
                s._wake(t)
            self._waiters = []
        s = _sim()
        if s is not None:
            s.yield_point("release")

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    def __repr__(self):
        return "<SimLock %s>" % ("locked" if self._locked else "unlocked")


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        return _real_get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _recursion_count(self):
        return self._count if self._owner == self._me() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return st

    def _acquire_restore(self, st):
        self._block.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def sim_time():
    s = SIM
    return s.wall() if s is not None else EPOCH


def sim_monotonic():
    s = SIM
    return s.mono if s is not None else 0.0


def sim_sleep(d):
    s = _sim()
    if s is not None:
        s.sleep(d)
    elif SIM is not None:
        SIM.mono += d


def install_threading():
    """Replace threading/time primitives; must run before abl is imported."""
    import threading
    real_thread = threading.Thread

    class SimThread(real_thread):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._sim_task = None
            self._sim_started = False

        def start(self):
            if self._sim_started:
                raise RuntimeError("threads can only be started once")
            self._sim_started = True
            if SIM is None:
                PENDING_THREADS.append(self)
            else:
                self._sim_adopt(SIM)

        def _sim_adopt(self, sim):
            n = sum(1 for t in sim.tasks if t.thread_obj is not None)
            self._sim_task = sim.spawn(self.run, "thread%d" % n, daemon=True, thread_obj=self)
            s = _sim()
            if s is not None:
                s.yield_point("thread-start")

        def is_alive(self):
            return self._sim_task is not None and self._sim_task.state != DONE

        def join(self, timeout=None):
            if not self._sim_started:
                raise RuntimeError("cannot join thread before it is started")
            s = _sim()
            t = self._sim_task
            if s is None or t is None:
                return
            if t is s.current:
                raise RuntimeError("cannot join current thread")
            deadline = None if timeout is None else s.mono + timeout
            while t.state != DONE:
                t.joiners.append(s.current)
                if not s.block("join %s" % t.name, None if deadline is None else max(0.0, deadline - s.mono)):
                    return

        @property
        def ident(self):
            return self._sim_task.ident if self._sim_task else None

    threading.Thread = SimThread
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._time = sim_monotonic
    _time_mod.time = sim_time
    _time_mod.time_ns = lambda: int(sim_time() * 1e9)
    _time_mod.monotonic = sim_monotonic
    _time_mod.perf_counter = sim_monotonic
    _time_mod.sleep = sim_sleep
    return SimThread


REAL_MONOTONIC = _time_mod.monotonic
REAL_SLEEP = _time_mod.sleep
