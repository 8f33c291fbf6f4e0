"""C01, C02, C03: the connection registry with scripted backends."""
from sim import boot, core, disk as disk_mod
from . import common

TIME_EPS = 1e-6


class Fakes:
    """Backends whose every construction, operation and close is recorded and
    may be scripted to stall or fail."""

    def __init__(self, w):
        self.w = w
        self.all = []            # every successfully constructed backend
        self.attempts = []
        self.on_op = None
        self.on_close = None
        self.construct_script = {}    # attempt number -> ("raise"|"stall", arg)
        self.op_sleep = 0.0
        self.cls = self._make()
        for scheme in ("fake", "fakeb"):
            w.registry.register(scheme, self.cls[scheme])

    def _make(self):
        fakes = self
        w = self.w
        FileSystem = w.base.FileSystem

        class FakeFS(FileSystem):
            def _initialize(self):
                n = len(fakes.attempts)
                fakes.attempts.append(self.sig())
                w.sim.log("construct", n, self.sig())
                what = fakes.construct_script.get(n % 16)
                if what:
                    if what[0] == "stall":
                        w.sim.count("fault:stall@construct")
                        w.sim.sleep(what[1])
                    elif what[0] == "raise":
                        w.sim.count("fault:raise@construct")
                        raise ConstructError("construction refused")
                self.n = len(fakes.all)
                self.born = (w.sim.mono, w.now())
                self.close_calls = 0
                self.closed_seq = None
                self.op_walls = [w.now()]
                self.op_mono = w.sim.mono
                self.close_script = None
                fakes.all.append(self)

            def sig(self):
                return [self.my_scheme, self.hostname or "", self.port or 0, self.username or "",
                        self.password or "", self.vpath_connector or "",
                        sorted([k, repr(v)] for k, v in self.extras.items())]

            def _op(self, name):
                self.op_walls.append(w.now())
                self.op_mono = w.sim.mono
                w.sim.log("backend-op", name, self.n)
                if fakes.on_op:
                    fakes.on_op(self, name)

            def close(self):
                self.close_calls += 1
                w.sim.log("backend-close", self.n, self.close_calls)
                if self.closed_seq is None:
                    self.closed_seq = w.sim.seq
                    self.closed_at = (w.sim.mono, w.now())
                if fakes.on_close:
                    fakes.on_close(self)
                s = self.close_script
                if s:
                    if s[0] in ("stall", "stall-raise"):
                        w.sim.count("fault:stall@close")
                        w.sim.sleep(s[1])
                    if s[0] in ("raise", "stall-raise"):
                        w.sim.count("fault:raise@close")
                        raise CLOSE_ERRORS[int(s[1]) % len(CLOSE_ERRORS)]("close failed")

            def exists(self, path):
                self._op("exists")
                return True

            def isfile(self, path):
                self._op("isfile")
                return False

            def isdir(self, path):
                self._op("isdir")
                return True

            def isexec(self, path, mode):
                self._op("isexec")
                return False

            def set_exec(self, path, mode):
                self._op("set_exec")

            def islink(self, path):
                self._op("islink")
                return False

            def readlink(self, path):
                self._op("readlink")
                return path

            def symlink(self, target, link_name):
                self._op("symlink")

            def mtime(self, path):
                self._op("mtime")
                return 1.0

            def listdir(self, path):
                self._op("listdir")
                return []

            def info(self, path, set_info=None, followlinks=True):
                self._op("info")
                return self

            def glob(self, path, pattern):
                self._op("glob")
                return []

            def sync(self, a, b, options):
                self._op("sync")

            def copystat(self, a, b):
                self._op("copystat")

            def mkdir(self, path):
                self._op("mkdir")

            def makedirs(self, path):
                self._op("makedirs")
                return path

            def lock(self, path, fail_on_lock, cleanup):
                self._op("lock")
                return None

            def open(self, path, options, mimetype):
                self._op("open")
                import io
                return io.BytesIO(b"x" * 10)

            def move(self, a, b):
                self._op("move")

            def copy(self, a, b, **k):
                self._op("copy")

            def removefile(self, p):
                self._op("removefile")

            def removedir(self, p):
                self._op("removedir")

            def walk(self, top, topdown=True, followlinks=True):
                self._op("walk")
                return iter([])

        out = {}
        for s in ("fake", "fakeb"):
            out[s] = type("Fake_" + s, (FakeFS,), {"my_scheme": s, "scheme": s, "supports_symlinks": lambda self: True})
        return out

    def live(self):
        return [c for c in self.all if not c.close_calls]


class ConstructError(Exception):
    pass


CLOSE_ERRORS = [RuntimeError, OSError, ValueError, KeyError, AttributeError, SystemExit]

# every URI operation that talks to a backend
URI_OPS = {
    "exists": lambda u: u.exists(),
    "isfile": lambda u: u.isfile(),
    "isdir": lambda u: u.isdir(),
    "isexec": lambda u: u.isexec(),
    "set_exec": lambda u: u.set_exec(0),
    "islink": lambda u: u.islink(),
    "readlink": lambda u: u.readlink(),
    "symlink": lambda u: u.symlink(u / "l"),
    "mtime": lambda u: u.mtime(),
    "listdir": lambda u: u.listdir(),
    "info": lambda u: u.info(),
    "glob": lambda u: u.glob("*"),
    "sync": lambda u: u.sync(u),
    "copystat": lambda u: u.copystat(u),
    "mkdir": lambda u: u.mkdir(),
    "makedirs": lambda u: u.makedirs(),
    "lock": lambda u: u.lock(),
    "open": lambda u: u.open("rb"),
    "md5": lambda u: u.md5(),
    "move": lambda u: u.move(u),
    "copy": lambda u: u.copy(u),
    "remove": lambda u: u.remove(),
    "walk": lambda u: list(u.walk()),
}
OP_NAMES = sorted(URI_OPS)

# location: [scheme, host, port, user, password, connector, {extras}]
BASE_LOC = ["fake", "host", 0, "", "", "", {}]
VARIANTS = [
    BASE_LOC,
    ["fakeb", "host", 0, "", "", "", {}],
    ["fake", "hosu", 0, "", "", "", {}],
    ["fake", "host", 2200, "", "", "", {}],
    ["fake", "host", 2201, "", "", "", {}],
    ["fake", "host", 0, "joe", "", "", {}],
    ["fake", "host", 0, "ann", "", "", {}],
    ["fake", "host", 0, "joe", "pw1", "", {}],
    ["fake", "host", 0, "joe", "pw2", "", {}],
    ["fake", "", 0, "", "", "/a/b.zip", {}],
    ["fake", "", 0, "", "", "/a/c.zip", {}],
    ["fake", "host", 0, "", "", "", {"key": "1"}],
    ["fake", "host", 0, "", "", "", {"key": "2"}],
    ["fake", "host", 0, "", "", "", {"kez": "1"}],
    ["fake", "host", 0, "", "", "", {"a": "1", "b": "2"}],
    ["fake", "host", 0, "", "", "", {"a": "2", "b": "1"}],
    ["fake", "host", 0, "", "", "", {"a": "1", "b": "2", "c": "3"}],
    # only as keywords, in the query there is nothing but text
    ["fake", "host", 0, "", "", "", {"key": 1}],
    ["fake", "host", 0, "", "", "", {"key": None}],
]


def loc_sig(loc):
    return [loc[0], loc[1], loc[2], loc[3], loc[4], loc[5], sorted([k, repr(v)] for k, v in loc[6].items())]


def make_uri(w, loc, style):
    """The same location spelled in different ways."""
    scheme, host, port, user, pw, conn, extras = loc
    ex = dict(extras)
    auth = ""
    kw = {}
    if user and style & 1:
        kw["username"] = user
        if pw:
            kw["password"] = pw
    elif user and style & 8:
        ex["username"] = user
        if pw:
            ex["password"] = pw
        style |= 4          # one of the options, for the uri
    elif user:
        auth = user + (":" + pw if pw else "") + "@"
    if conn:
        net = "((%s))" % conn
    else:
        net = auth + host + (":%d" % port if port else "")
    names = sorted(ex)
    if style & 2:
        names.reverse()
    q = ""
    if not all(isinstance(v, str) for v in ex.values()):
        style &= ~4
    if style & 4:
        q = "&".join("%s=%s" % (k, ex[k]) for k in names)
    else:
        for k in names:
            kw[k] = ex[k]
    u = w.URI("%s://%s/some/path%s" % (scheme, net, "?" + q if q else ""), **kw)
    return u


def request(w, loc, style, via, opname, kept=None):
    """One request; returns the backend that served it."""
    if via in ("keep", "reuse"):
        # one object for several requests, possibly long after each other
        key = (str(loc_sig(loc)), style)
        if key not in kept:
            kept[key] = make_uri(w, loc, style)
        u = kept[key]
        if via == "keep":
            return u.get_connection()
        URI_OPS[opname](u)
        return u.connection
    if via in ("change", "changejoin") and loc[1:3] == BASE_LOC[1:3] and not loc[5]:
        # one object made to name one location after the other
        if not all(isinstance(v, str) for v in loc[6].values()):
            style &= ~4
        key = ("changing", style & 4)
        if key not in kept:
            kept[key] = w.URI("fake://host/some/path")
        u = kept[key]
        u.scheme = loc[0]
        where = u.query if style & 4 else u.extras
        where.clear()
        where.update(loc[6])
        u.username = loc[3] or None
        u.password = loc[4] or None
        if via == "changejoin":
            u = u / "more"
        URI_OPS[opname](u)
        return u.connection
    if via == "get":
        names = sorted(loc[6])
        if style & 2:
            names.reverse()
        # a URI with an authority names an absent user by None, one without by ''
        none = None if loc[1] else ""
        return w.registry.get_connection(loc[0], loc[1], loc[2], loc[3] or none, loc[4] or none, loc[5],
                                         **{k: loc[6][k] for k in names})
    u = make_uri(w, loc, style)
    if via == "uriget":
        return u.get_connection()
    if via == "copyuri":
        u = w.URI(u)
    if via == "join":
        u = u / "more"
    if via == "plus":
        u = u + "more"
    if via == "split":
        u = u.split()[0]
    if via == "joinsplit":
        u = (u / "more").directory()
    URI_OPS[opname](u)
    return u.connection


# ---------------------------------------------------------------------------
class C01Requests:
    """Threads ask for connections by every spelling, constructors stall or fail,
    the idle cleaner runs."""
    NAME = "c01_requests"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([2, 2, 3, 3, 4])
        nloc = rng.choice([1, 1, 2, 3, 5])
        locs = [rng.randrange(len(VARIANTS)) for _ in range(nloc)]
        if rng.random() < 0.2:
            locs = rng.sample([0, 1, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18], rng.choice([2, 3, 4]))
        cleaner = rng.random() < 0.6
        timeout = rng.choice([2, 3, 5])
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(1, 5)):
                if rng.random() < 0.3:
                    ops.append([t, "sleep", rng.choice([0.5, 1, timeout - 1, timeout, timeout + 0.5, timeout + 1, timeout + 2])])
                ops.append([t, "req", rng.choice(locs), rng.randrange(16),
                            rng.choice(["get", "op", "op", "reuse", "reuse", "reuse", "keep", "uriget", "copyuri", "join", "plus", "split", "joinsplit", "change", "change", "changejoin"]), rng.choice(OP_NAMES)])
        script = {}
        if rng.random() < 0.5:
            for n in range(8):
                r = rng.random()
                if r < 0.25:
                    script[n] = ["raise", 0]
                elif r < 0.5:
                    script[n] = ["stall", rng.choice([0.5, 1.0, 3.0])]
        p = common.sim_params(rng)
        p["cleaner"] = cleaner
        return {"sim": p, "params": {"interval": rng.choice([1, 2]), "timeout": timeout,
                                     "script": {str(k): v for k, v in script.items()},
                                     "cleanthreads": rng.choice([0, 0, 1, 2])},
                "ops": ops}

    nontrivial = staticmethod(common.switched)

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        f = Fakes(w)
        f.construct_script = {int(k): v for k, v in pr["script"].items()}
        if plan["sim"]["cleaner"]:
            w.adopt_cleaner(pr["interval"], pr["timeout"])
        else:
            w.registry.clean_timeout = pr["timeout"]
        served = {}
        used = {}
        gone = set()

        def on_op(conn, name):
            if conn.close_calls:
                w.fail("op-on-closed", "operation %s ran on connection %d, closed before" % (name, conn.n))
        f.on_op = on_op

        def check(loc, o, what):
            if not o.ok:
                if o.kind == "ConstructError" and any(s[0] == "raise" for s in f.construct_script.values()):
                    w.probe("construct-failure-reported")
                    return
                w.fail("request-failed", "%s for %s: %r" % (what, loc, o))
            c = o.value
            if not hasattr(c, "sig"):
                w.fail("wrong-connection", "%s for %s got %r" % (what, loc, c))
            if c.sig() != loc_sig(loc):
                w.fail("wrong-connection", "%s for %s was served by the connection of %s" % (what, loc_sig(loc), c.sig()))
            if c.close_calls:
                w.fail("closed-connection", "%s for %s was handed connection %d, already closed" % (what, loc, c.n))
            key = str(loc_sig(loc))
            old = served.get(key)
            # one that was idle for too long may have been dropped already and be about to be closed
            dropped = old is not None and w.now() - max(old.op_walls[-1], used.get(old.n, 0)) > pr["timeout"]
            if old is not None and old is not c and not old.close_calls and not dropped:
                w.fail("two-connections", "%s for %s got connection %d while %d is live" % (what, loc, c.n, old.n))
            if old is not None and old is not c:
                gone.add(old.n)
            if c.n in gone:
                w.fail("two-connections", "%s for %s got connection %d, which another one had replaced" % (what, loc, c.n))
            served[key] = c
            used[c.n] = w.now()
            w.probe("served")

        def body(tid, ops):
            kept = {}
            for op in ops:
                if op[0] == "sleep":
                    w.sleep(op[1])
                    continue
                _, li, style, via, opname = op
                if via in ("keep", "reuse"):
                    style &= 1
                loc = VARIANTS[li]
                o = w.call("%s %s %s" % (via, loc_sig(loc), opname), request, w, loc, style, via, opname, kept)
                check(loc, o, via)

        extra = []
        for k in range(pr["cleanthreads"]):
            def cl():
                for _ in range(3):
                    w.sleep(1.0 + 0.25 * k)
                    o = w.call("cleanup", w.registry.cleanup)
                    if not o.ok:
                        w.fail("cleanup-raised", "%r" % o)
            extra.append(w.spawn(cl, "clean%d" % k))
        common.run_threads(w, plan, body)
        w.join(extra)
        # afterwards every location is served by one connection, and nothing failed is left behind
        f.construct_script = {}
        for li in sorted({op[2] for op in plan["ops"] if op[1] == "req"}):
            loc = VARIANTS[li]
            for style in (0, 7):
                check(loc, w.call("final %s" % loc_sig(loc), request, w, loc, style, "get", "exists"), "final request")
        w.sleep(0.01)       # what is being closed gets closed
        with w.quiet():
            o = w.call("cleanup-all", w.registry.cleanup, True)
            if not o.ok:
                w.fail("cleanup-raised", "%r" % o)
            left = [c.n for c in f.all if not c.close_calls]
            if left:
                w.fail("leaked-connection", "connections %s were constructed but are known to nobody and never closed" % left)


class C01Memory:
    """Several threads make the first use of memory:// at the same moment: nobody's
    work is thrown away."""
    NAME = "c01_memory"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([2, 3, 4])
        ops = []
        for t in range(nt):
            for k in range(rng.randint(1, 3)):
                ops.append([t, rng.choice(["mkdir", "write", "link"]), "n%d_%d" % (t, k), rng.choice(["", "", "x"])])
        return {"sim": common.sim_params(rng), "ops": ops, "params": {}}

    nontrivial = staticmethod(common.switched)

    @staticmethod
    def run(w, plan):
        done = []

        def uri(name, extra):
            return w.URI("memory:///" + name, **({"inst": extra} if extra else {}))

        def body(tid, ops):
            for kind, name, extra in ops:
                u = uri(name, extra)
                if kind == "mkdir":
                    o = w.call("mkdir " + name, u.mkdir)
                elif kind == "link":
                    o = w.call("symlink " + name, uri("target", extra).symlink, u)
                else:
                    def wr():
                        with u.open("wb") as h:
                            h.write(name.encode())
                    o = w.call("write " + name, wr)
                if not o.ok:
                    w.fail("request-failed", "%s %s: %r" % (kind, name, o))
                done.append((kind, name, extra))
        common.run_threads(w, plan, body)
        with w.quiet():
            for kind, name, extra in done:
                u = uri(name, extra)
                o = w.call("check " + name, lambda: (u.isdir(), u.isfile(), u.islink()))
                want = {"mkdir": (True, False, False), "write": (False, True, False), "link": (False, False, True)}[kind]
                if not o.ok or o.value != want:
                    w.fail("work-lost", "%s of %s%s succeeded, but afterwards (isdir, isfile, islink) = %r" % (
                        kind, name, " (instance x)" if extra else "", o))


# ---------------------------------------------------------------------------
class C02Idle:
    """Histories of operations, pauses and clock steps against the idle cleaner."""
    NAME = "c02_idle"

    @staticmethod
    def gen(rng, tier):
        interval = rng.choice([1, 2, 3, 5, 7, 10, 60, 300, 0.5])
        timeout = rng.choice([1, 2, 4, 5, 9, 10, 30, 120, 1800])
        nt = rng.choice([1, 1, 2, 3])
        locs = [rng.randrange(len(VARIANTS)) for _ in range(rng.choice([1, 2, 3, 4]))]
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(2, 8)):
                r = rng.random()
                if r < 0.45:
                    ops.append([t, "sleep", rng.choice([
                        timeout * 0.5, timeout - 0.5, timeout, timeout, timeout + 0.5, timeout * 1.0 + interval,
                        timeout + interval * 2 + 2, interval * 0.5, interval, 1, 0.25])])
                elif r < 0.53:
                    ops.append([t, "step", rng.choice([-1, 1]) * rng.choice([0.5, timeout * 0.5, timeout, timeout * 3, interval * 2, 3600, 7])])
                ops.append([t, "req", rng.choice(locs), rng.randrange(8), rng.choice(["op", "op", "op", "copyuri"]), rng.choice(OP_NAMES)])
        scripts = []
        for _ in range(8):
            r = rng.random()
            scripts.append(["raise", rng.randrange(6)] if r < 0.2 else
                           ["stall", rng.choice([0.5, 3, 40])] if r < 0.35 else
                           ["stall-raise", rng.choice([1, 4])] if r < 0.4 else None)
        if rng.random() < 0.4:
            scripts = [None] * 8
        p = common.sim_params(rng, step_cap=6000000)
        p["cleaner"] = True
        if not rng.random() < 0.5:
            p["switch_p"] = 0.0
        if max(interval, timeout) > 20:
            p["granularity"] = "line"
        return {"sim": p, "ops": ops, "params": {"interval": interval, "timeout": timeout, "close": scripts,
                                                 "no_steps": rng.random() < 0.5}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("evicted", 0) >= 1 and r["ops"] >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        timeout, interval = pr["timeout"], pr["interval"]
        f = Fakes(w)
        segs = [(0.0, w.sim.wall_offset)]       # (mono, wall offset) pieces
        stalls = []                              # (mono start, length) of stalling closes
        w.adopt_cleaner(interval, timeout)
        scripts = pr["close"] or [None]

        def on_close(c):
            # the longest it has looked idle by the clock at any instant since its last operation
            # (a close can be delayed by the closes before it, and the clock set back meanwhile)
            idle = w.now() - c.op_walls[-1]
            for i in range(1, len(segs)):
                if segs[i][0] >= c.op_mono:
                    idle = max(idle, segs[i][0] + segs[i - 1][1] - c.op_walls[-1])
            w.probe("evicted")
            w.sim.log("evict", c.n, round(idle, 6))
            if idle <= timeout + TIME_EPS:
                w.fail("active-closed", "connection %d was closed by the cleaner %.3f s after its last operation; timeout %s" % (
                    c.n, idle, timeout))
            if c.close_calls > 1:
                w.fail("closed-twice", "connection %d was closed %d times" % (c.n, c.close_calls))
            c.close_script = scripts[c.n % len(scripts)]
            if c.close_script and "stall" in c.close_script[0]:
                stalls.append((w.sim.mono, c.close_script[1]))
        f.on_close = on_close

        def check_prompt():
            """Anything idle (by the clock) for too long must be gone by now."""
            m1 = w.sim.mono
            slack = 2.5 + interval + sum(d for m, d in stalls)
            for c in f.all:
                if c.close_calls:
                    continue
                last = c.op_walls[-1]
                # how long, counted back from now, has it been idle by the clock?
                since = m1
                for i in range(len(segs) - 1, -1, -1):
                    m0, off = segs[i]
                    end = segs[i + 1][0] if i + 1 < len(segs) else m1
                    # idle when mono + off - last > timeout
                    t_idle = last + timeout - off
                    if t_idle >= end:
                        break
                    since = max(m0, t_idle)
                    if t_idle > m0:
                        break
                since = max(since, c.born[0])
                if m1 - since > slack:
                    w.fail("idle-not-closed", "connection %d has been idle beyond the timeout %s for %.3f s (interval %s) and is still open" % (
                        c.n, timeout, m1 - since, interval))

        def body(tid, ops):
            for op in ops:
                if op[0] == "sleep":
                    d = op[1]
                    while d > 0:
                        step = min(d, 5.0 if d < 200 else d / 10)
                        w.sleep(step)
                        d -= step
                        check_prompt()
                elif op[0] == "step":
                    if not pr["no_steps"]:
                        w.step_clock(op[1])
                        segs.append((w.sim.mono, w.sim.wall_offset))
                else:
                    _, li, style, via, opname = op
                    loc = VARIANTS[li]
                    o = w.call("%s %s %s" % (via, loc_sig(loc), opname), request, w, loc, style, via, opname)
                    if not o.ok:
                        w.fail("request-failed", "%r" % o)
                    check_prompt()
        common.run_threads(w, plan, body)
        # bounded progress: left alone, everything goes
        back = max([0.0] + [segs[i][1] - segs[-1][1] for i in range(len(segs))])
        f_last = max([0.0] + [max(c.op_walls) - w.now() for c in f.live()])
        total = timeout + f_last + interval + 3.0 + sum(d for m, d in stalls) + 60 * len(f.live()) * (1 if any(scripts) else 0)
        w.sleep(total + 1)
        check_prompt()
        left = [c.n for c in f.live()]
        if left:
            w.fail("idle-not-closed", "after %.1f quiet seconds (interval %s, timeout %s) connections %s are still open" % (
                total, interval, timeout, left))
        if w.registry.connections:
            w.fail("not-dropped", "closed connections are still registered: %s" % list(w.registry.connections))


class C02Memory:
    """An in-memory file system in use keeps its content, whichever operations use it."""
    NAME = "c02_memory"
    KEEP = {
        "exists": lambda u: u.exists(), "isfile": lambda u: u.isfile(), "isdir": lambda u: u.isdir(),
        "isexec": lambda u: u.isexec(), "set_exec": lambda u: u.set_exec(0o100), "islink": lambda u: u.islink(),
        "mtime": lambda u: u.mtime(), "info": lambda u: u.info(), "md5": lambda u: u.md5(),
        "read": lambda u: u.open("rb").read(), "copystat": lambda u: u.copystat(u.directory() / "g"),
        "listdir": lambda u: u.directory().listdir(), "glob": lambda u: u.directory().glob("*"),
        "walk": lambda u: list(u.directory().walk()), "readlink": lambda u: (u.directory() / "l").readlink(),
        "manipulate": lambda u: u._manipulate(mtime=5.0), "copy": lambda u: u.copy(u.directory() / "h"),
        "makedirs": lambda u: u.directory().makedirs(),
    }

    @staticmethod
    def gen(rng, tier):
        timeout = rng.choice([3, 5, 10, 60, 1800])
        ops = []
        names = sorted(C02Memory.KEEP)
        one = rng.choice(names) if rng.random() < 0.6 else None
        for _ in range(rng.randint(3, 12) if timeout < 1000 else 3):
            ops.append([0, one or rng.choice(names), rng.choice([timeout * 0.5, timeout * 0.9, timeout * 0.99, timeout - 0.5, timeout])])
        p = common.sim_params(rng, step_cap=6000000)
        p["granularity"] = "line"
        p["cleaner"] = True
        return {"sim": p, "ops": ops, "params": {"interval": rng.choice([1, 2, timeout / 2.0, timeout * 2]), "timeout": timeout}}

    @staticmethod
    def nontrivial(r):
        return r["ops"] >= 3

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        w.adopt_cleaner(pr["interval"], pr["timeout"])
        d = w.URI("memory:///d")
        d.mkdir()
        for n in ("f", "g"):
            with (d / n).open("wb") as h:
                h.write(b"precious")
        (d / "f").symlink(d / "l")
        for tid, name, pause in plan["ops"]:
            w.sleep(pause)
            o = w.call(name, C02Memory.KEEP[name], d / "f")
            if not o.ok:
                w.fail("content-lost", "%s %.2f s after the previous operation (timeout %s): %r" % (name, pause, pr["timeout"], o))
        o = w.call("read", lambda: (d / "f").open("rb").read())
        if not o.ok or o.value != b"precious":
            w.fail("content-lost", "content in use is gone: %r" % o)


# ---------------------------------------------------------------------------
class C03Force:
    """Forced cleanups, shutdowns, requests and the idle cleaner at the same time."""
    NAME = "c03_force"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 2, 2, 3])
        locs = [rng.randrange(len(VARIANTS)) for _ in range(rng.choice([1, 2, 3, 4]))]
        ops = []
        for t in range(nt):
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < 0.35:
                    ops.append([t, "force"])
                elif r < 0.42:
                    ops.append([t, "idle"])
                elif r < 0.55:
                    ops.append([t, "sleep", rng.choice([0.1, 0.5, 1, 3])])
                else:
                    ops.append([t, "req", rng.choice(locs), rng.randrange(16), rng.choice(["get", "op", "op"]), rng.choice(OP_NAMES)])
        scripts = []
        for _ in range(8):
            r = rng.random()
            scripts.append(["raise", rng.randrange(6)] if r < 0.25 else
                           ["stall", rng.choice([0.5, 3])] if r < 0.4 else
                           ["stall-raise", rng.choice([1, 4])] if r < 0.45 else None)
        if rng.random() < 0.3:
            scripts = [None] * 8
        p = common.sim_params(rng)
        p["cleaner"] = rng.random() < 0.7
        return {"sim": p, "ops": ops, "params": {
            "preload": [rng.randrange(len(VARIANTS)) for _ in range(rng.choice([0, 1, 3, 5]))],
            "interval": rng.choice([1, 2, 300]), "timeout": rng.choice([1, 2, 1800]), "close": scripts,
            "end": rng.choice(["force", "shutdown", "shutdown2", "exit", "exit"]),
            "between": rng.choice([0, 1, 2]), "again": rng.choice([None, "force", "shutdown", "exit"])}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("force-closed", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        f = Fakes(w)
        scripts = pr["close"] or [None]
        stall_total = [0.0]

        def on_close(c):
            if c.close_calls > 1:
                w.fail("closed-twice", "connection %d was closed %d times" % (c.n, c.close_calls))
            c.close_script = scripts[c.n % len(scripts)]
            if c.close_script and "stall" in c.close_script[0]:
                stall_total[0] += c.close_script[1]
            w.probe("force-closed")
        f.on_close = on_close
        if plan["sim"]["cleaner"]:
            w.adopt_cleaner(pr["interval"], pr["timeout"])
        for li in pr["preload"]:
            request(w, VARIANTS[li], 0, "get", "exists")
        must_close = []

        def force(name, fn):
            live = [c for c in f.all if c.n is not None and not c.close_calls and registered(c)]
            t0 = w.sim.seq
            o = w.call(name, fn)
            if not o.ok:
                w.fail("cleanup-raised", "%s: %r" % (name, o))
            must_close.extend(live)
            # a request made afterwards gets a fresh connection
            return live

        def registered(c):
            return any(x is c for x in w.registry.connections.values())

        def body(tid, ops):
            for op in ops:
                if op[0] == "sleep":
                    w.sleep(op[1])
                elif op[0] == "idle":
                    o = w.call("cleanup", w.registry.cleanup)
                    if not o.ok:
                        w.fail("cleanup-raised", "cleanup: %r" % o)
                elif op[0] == "force":
                    live = force("force", lambda: w.registry.cleanup(force=True))
                    for c in live[:3]:
                        loc = [v for v in VARIANTS if loc_sig(v) == c.sig()][0]
                        o = w.call("after %s" % c.sig(), request, w, loc, 0, "get", "exists")
                        if not o.ok:
                            w.fail("request-failed", "after a forced cleanup: %r" % o)
                        if o.value is c:
                            w.fail("not-dropped", "a request after the forced cleanup got the old connection %d" % c.n)
                else:
                    _, li, style, via, opname = op
                    loc = VARIANTS[li]
                    o = w.call("%s %s %s" % (via, loc_sig(loc), opname), request, w, loc, style, via, opname)
                    if not o.ok:
                        w.fail("request-failed", "%r" % o)
        common.run_threads(w, plan, body)
        end = pr["end"]
        t0, s0 = w.sim.mono, stall_total[0]
        if end == "force":
            force("force", lambda: w.registry.cleanup(force=True))
        elif end == "exit":
            hooks = list(boot.ATEXIT)
            nd = [t for t in core.PENDING_THREADS if not t.daemon]
            if nd:
                w.fail("exit-hangs", "interpreter exit would wait for ever for the non-daemon thread %s" % nd[0].name)
            for fn, a, k in reversed(hooks):
                force("atexit", lambda: fn(*a, **k))
            w.probe("exit-hooks", len(hooks))
        else:
            force("shutdown", w.registry.shutdown)
            if end == "shutdown2":
                for li in ((pr["preload"] or [0]) * 2)[:pr.get("between", 0)]:
                    request(w, VARIANTS[li], 0, "op", "exists")
                force("shutdown again", w.registry.shutdown)
        if f.live() and end == "force" and plan["sim"]["cleaner"]:
            # the idle cleaner has taken these just before and may be slow
            w.sleep(sum(x[1] for x in scripts if x and "stall" in x[0]) * 2 + 1)
        for c in must_close:
            if c.close_calls != 1:
                w.fail("not-closed", "connection %d was live when a forced cleanup ran, and has %d closes" % (c.n, c.close_calls))
        left = [c.n for c in f.live()]
        if left:
            w.fail("not-closed", "after %s connections %s were never closed" % (end, left))
        if end != "force":
            if w.registry.cleaner_thread.is_alive() and plan["sim"]["cleaner"]:
                # give it a few seconds of clock time
                w.sleep(4.0)
                if w.registry.cleaner_thread.is_alive():
                    w.fail("cleaner-alive", "the cleaner thread is still running after %s" % end)
            took = w.sim.mono - t0 - (stall_total[0] - s0)
            if took > 8.0 + s0:
                w.fail("slow-shutdown", "%s took %.1f s" % (end, took))
        for li in pr["preload"][:2]:
            o = w.call("after end", request, w, VARIANTS[li], 0, "op", "exists")
            if not o.ok or o.value.close_calls:
                w.fail("request-failed", "after %s: %r" % (end, o))
        # whoever works on after that gets cleaned up after just the same
        again = pr.get("again")
        if again:
            if again == "exit":
                for fn, a, k in reversed(boot.ATEXIT):
                    force("atexit", lambda: fn(*a, **k))
            else:
                force(again, w.registry.shutdown if again == "shutdown" else lambda: w.registry.cleanup(force=True))
            if again == "force" and plan["sim"]["cleaner"] and end == "force":
                w.sleep(sum(x[1] for x in scripts if x and "stall" in x[0]) * 2 + 1)
            left = [c.n for c in f.live()]
            if left:
                w.fail("not-closed", "after %s and then %s connections %s were never closed" % (end, again, left))


class C03Zip:
    """Forced cleanup releases the files a zip backend kept open."""
    NAME = "c03_zip"

    @staticmethod
    def gen(rng, tier):
        ops = [[0, rng.choice(["list", "read", "write", "isfile", "exists"]), rng.choice(["a", "b", "d/c"])]
               for _ in range(rng.randint(1, 6))]
        return {"sim": common.sim_params(rng, threads=False), "ops": ops,
                "params": {"on": rng.choice(["file", "memory"]), "end": rng.choice(["force", "shutdown", "exit"])}}

    @staticmethod
    def nontrivial(r):
        return r["ops"] >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        arch = "/simdisk/x.zip" if pr["on"] == "file" else "memory:///x.zip"
        root = "zip://((%s))/" % arch
        with w.URI(root + "a").open("wb") as h:
            h.write(b"first")
        for tid, kind, name in plan["ops"]:
            u = w.URI(root + name)
            if kind == "list":
                w.call("list", w.URI(root).listdir)
            elif kind in ("isfile", "exists"):
                w.call(kind, getattr(u, kind))
            elif kind == "read":
                def rd():
                    h = u.open("rb")
                    try:
                        return h.read()
                    finally:
                        h.close()
                w.call("read", rd)
            else:
                def wr():
                    with u.open("wb") as h:
                        h.write(b"data " + name.encode())
                w.call("write", wr)
        if w.disk.fds:
            w.probe("held-open")
        if pr["end"] == "force":
            o = w.call("force", w.registry.cleanup, True)
        elif pr["end"] == "shutdown":
            w.adopt_cleaner(1, 1800)
            o = w.call("shutdown", w.registry.shutdown)
        else:
            w.adopt_cleaner(1, 1800)
            o = w.call("exit", lambda: [fn(*a, **k) for fn, a, k in reversed(boot.ATEXIT)])
        if not o.ok:
            w.fail("cleanup-raised", "%r" % o)
        if w.disk.fds:
            w.fail("files-held", "after closing every connection these files are still open: %s" % sorted(
                x.path for x in w.disk.fds.values()))
        o = w.call("read again", lambda: w.URI(root + "a").isfile())
        # an archive in memory is gone with its file system
        if not o.ok or o.value is not (pr["on"] == "file"):
            w.fail("request-failed", "after the cleanup: %r" % o)
