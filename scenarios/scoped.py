"""C15: working-directory blocks and temporary-file handles."""
import os

from . import common
from .trees import content

DIRS = ["/simdisk", "/simdisk/a", "/simdisk/a/b", "/simdisk/a/b/c", "/simdisk/d e", "/simdisk/\u00e4"]
WHERE = DIRS + ["./a", "./b", "./../a", "./..", ".", "/simdisk/la", "/simdisk/lloop", "/simdisk/missing", "/simdisk/file", "a", "./missing"]
EXITS = ["", "", "", "raise", "base", "return", "gen", "stop"]


class Boom(Exception):
    pass


class Base(BaseException):
    pass


EXC = {"raise": Boom, "base": Base, "stop": StopIteration}


class C15Scoped:
    NAME = "c15_scoped"

    @staticmethod
    def gen(rng, tier):
        ops = []
        what = rng.choice(["dirs", "dirs", "temp", "both"])
        nt = rng.choice([1, 1, 2, 3]) if what == "temp" else 1
        for k in range(rng.choice([3, 6, 12, 25])):
            r = rng.random()
            t = rng.randrange(nt)
            if what == "temp" or (what == "both" and r < 0.4):
                i = rng.randrange(3)
                kind = rng.choice(["t-make", "t-make", "t-read", "t-read", "t-read", "t-close", "t-block", "t-block"])
                if kind == "t-make":
                    ops.append([t, kind, i, rng.choice([0, 1, 10, 5000, 9000, 20000]), rng.choice(["plain", "plain", "lines", "utf8", "bad"])])
                elif kind == "t-read":
                    ops.append([t, kind, i, rng.choice([-1, 0, 1, 3, 100, 4096, 8192, 8193, None])])
                elif kind == "t-close":
                    ops.append([t, kind, i])
                else:
                    ops.append([t, kind, i, rng.choice([-1, 0, 7, 5000]), rng.choice(EXITS), rng.random() < 0.3])
                continue
            r = rng.random()
            if r < 0.07:
                ops.append([t, "in-gone", k, rng.choice(EXITS)])
            elif r < 0.4:
                ops.append([t, "in", rng.choice(WHERE), rng.choice(EXITS)])
            elif r < 0.6:
                ops.append([t, "out"])
            elif r < 0.75:
                ops.append([t, "make", rng.randrange(3), rng.choice(WHERE)])
            elif r < 0.9:
                ops.append([t, "in-made", rng.randrange(3), rng.choice(EXITS)])
            else:
                ops.append([t, "chdir", rng.choice(DIRS)])
        return {"sim": common.sim_params(rng, threads=nt > 1), "ops": ops,
                "params": {"fault_p": rng.choice([0, 0, 0.05, 0.2, 0.4]), "fault_max": rng.choice([1, 1, 3]), "short_p": rng.choice([0, 0, 0.3])}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("entered", 0) >= 1 or r["probes"].get("temp closed", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        from abl.vpath.base.misc import TempFileHandle, WorkingDirectory
        d = w.disk
        for p in DIRS[1:]:
            d.put_dir(p)
        d.put_file("/simdisk/file", b"x")
        d.put_link("/simdisk/la", "/simdisk/a")
        d.put_link("/simdisk/lloop", "/simdisk/lloop")
        before = d.tree("/simdisk")
        made = {}

        def cwd():
            try:
                return os.getcwd()
            except OSError:
                return "(nowhere)"

        def target(where):
            """the directory a path means here, or None"""
            try:
                i = d.get(where if where[0] in "/." else "./" + where)
            except OSError:
                return None
            return d.realname(where) if i.kind == "d" else None

        def block(helper, home, where, how, ops, gone=None):
            """enter, run ops up to the matching "out", leave as `how`; checks all of it"""
            start = cwd()
            if ".." in where and start == "/simdisk":
                return      # there is nothing above the simulated disk
            want = target(where)
            f0 = len(d.faults.fired)
            state = {"in": False}

            def body():
                state["in"] = True
                state["met"] = len(d.faults.fired) > f0
                w.probe("entered")
                if want is None or cwd() != want:
                    w.fail("not-entered", "inside the block of %s the directory is %s" % (where, cwd()))
                level(ops)
                if gone and cwd() == gone:
                    # the block ends in a directory that is no more
                    with w.quiet(), w.no_faults():
                        d.rmdir(gone)
                state["f1"] = len(d.faults.fired)

            def enter():
                if how == "return":
                    def fn():
                        with helper:
                            body()
                            return 17
                    if fn() != 17:
                        w.fail("swallowed", "a return from the block of %s was lost" % where)
                elif how == "gen":
                    def gen():
                        with helper:
                            body()
                            yield 1
                    g = gen()
                    next(g)
                    g.close()
                else:
                    with helper:
                        body()
                        if how:
                            raise EXC[how]("leaving")
            try:
                o = w.call("block %s %s" % (where, how), enter)
                kind = None if o.ok else o.kind
                text = repr(o)
            except Base as e:
                kind, text = "Base", repr(e)
            except BaseException as e:
                if type(e).__name__ in ("Halt", "SystemExit", "KeyboardInterrupt") or not isinstance(e, Exception):
                    raise
                kind, text = type(e).__name__, repr(e)
            if not state["in"]:
                if cwd() != start:
                    w.fail("moved", "entering %s failed (%s) and left the directory at %s instead of %s" % (where, text, cwd(), start))
                if want is not None and len(d.faults.fired) == f0:
                    w.fail("raised", "entering %s from %s: %s" % (where, start, text))
                w.probe("refused")
                return
            met = len(d.faults.fired) > state["f1"]
            if met:
                return
            if cwd() != home:
                w.fail("not-restored", "the block of %s, whose helper was made in %s, was left%s (%s) and the directory is %s" % (
                    where, home, " by " + how if how else "", text, cwd()))
            expected = {"raise": "Boom", "base": "Base", "stop": "StopIteration"}.get(how)
            if kind != expected:
                w.fail("swallowed" if kind is None else "raised", "leaving the block of %s by %s: %s" % (where, how or "its end", text))

        def level(ops):
            while ops:
                op = ops.pop(0)
                if op[0] == "out":
                    return
                step(op, ops)

        def step(op, ops):
            if op[0] == "in":
                home = cwd()
                block(WorkingDirectory(w.URI(op[1])), home, op[1], op[2], ops)
            elif op[0] == "in-gone":
                p = "/simdisk/gone%d" % op[1]
                d.put_dir(p)
                block(WorkingDirectory(w.URI(p)), cwd(), p, op[2], ops, gone=p)
                d.root.entries.pop("gone%d" % op[1], None)
                if cwd() == "(nowhere)":
                    # leaving it has met a fault
                    with w.quiet(), w.no_faults():
                        os.chdir("/simdisk")
            elif op[0] == "make":
                made[op[1]] = (WorkingDirectory(w.URI(op[2])), cwd(), op[2])
            elif op[0] == "in-made":
                if op[1] in made:
                    h, home, where = made[op[1]]
                    if target(home) is None:
                        return
                    block(h, home, where, op[2], ops)
            elif op[0] == "chdir":
                try:
                    os.chdir(op[1])
                except OSError:
                    pass
            else:
                temp(op)

        tid_of = {}
        temps = {}

        class Temp:
            pass

        def temp(op):
            me = w.sim.current.id
            key = (me, op[1])
            if op[0] == "t-make":
                old = temps.pop(key, None)
                if old is not None:
                    close(old, "closing it before its slot is used again")
                t = Temp()
                n = tid_of[0] = tid_of.get(0, 0) + 1
                t.path = "/simdisk/tmp%d" % n
                how = op[3]
                t.bad = how == "bad"
                if how == "utf8":
                    t.text = ("\u00e4\u20ac%d" % n) * (op[2] // 4)
                elif how == "lines":
                    t.text = "".join("line %d of %d\n" % (i, n) for i in range(op[2] // 12))
                else:
                    t.text = content(n, op[2]).decode("latin-1").replace("\r", "x").encode("ascii", "replace").decode()
                data = b"\xff\xfe\x80" * (op[2] // 3 + 1) if t.bad else t.text.encode()
                d.put_file(t.path, data)
                t.pos = 0
                t.closed = False
                t.fds = set(d.fds)
                f0 = d.faults.mine()
                o = w.call("temp %s" % t.path, lambda: TempFileHandle(t.path))
                if not o.ok:
                    if d.faults.mine() == f0:
                        w.fail("raised", "a handle on %s: %r" % (t.path, o))
                    return
                t.h = o.value
                temps[key] = t
                return
            t = temps.get(key)
            if t is None:
                return
            if op[0] == "t-read":
                read(t, op[2])
            elif op[0] == "t-close":
                close(t, "close")
            else:
                leave(t, op[2], op[3], op[4])

        def read(t, n):
            f0 = d.faults.mine()
            o = w.call("read %s %s" % (t.path, n), t.h.read, *([] if n is None else [n]))
            if not o.ok:
                if t.closed or t.bad or t.pos is None:
                    return
                if d.faults.mine() == f0:
                    w.fail("raised", "reading %s: %r" % (t.path, o))
                t.pos = None        # where a failed read leaves it is open
                return
            if t.closed:
                w.fail("not-closed", "%s was read after it was closed" % t.path)
            if t.bad or t.pos is None:
                return
            want = t.text[t.pos:] if n is None or n < 0 else t.text[t.pos:t.pos + n]
            if o.value != want:
                w.fail("content", "reading %s characters of %s from %d gave %r (%d), there are %r (%d)" % (
                    n, t.path, t.pos, o.value[:30], len(o.value), want[:30], len(want)))
            t.pos += len(want)

        def gone(t, what, removed_fault, close_fault):
            base = t.path.split("/")[-1]
            if not removed_fault and base in d.root.entries:
                w.fail("not-removed", "%s is still there after %s" % (t.path, what))
            mine = [of.path for of in d.fds.values() if of.path == t.path]
            if mine:
                w.fail("not-closed", "%s is still open after %s" % (t.path, what))
            t.closed = True
            w.probe("temp closed")

        def outcome(t, o, fired, what, expected=None):
            met_unlink = any(f[0] == "unlink" and f[1] != "stall" for f in fired)
            met_close = any(f[0] == "close" for f in fired)
            hard = met_unlink or met_close
            if not o.ok and o.kind != expected and not hard:
                w.fail("raised", "%s of %s: %r" % (what, t.path, o))
            if o.ok and hard:
                w.fail("fault-swallowed", "%s of %s met %s and returned" % (what, t.path, fired))
            if o.ok and expected:
                w.fail("swallowed", "%s of %s: the exception was swallowed" % (what, t.path))
            gone(t, what, met_unlink, met_close)

        def met_since(f0):
            me = w.sim.current.id
            return [f for f, b in list(zip(d.faults.fired, d.faults.by))[f0:] if b == me]

        def close(t, what):
            f0 = len(d.faults.fired)
            o = w.call("close %s" % t.path, t.h.close)
            fired = met_since(f0)
            if t.closed:
                if not o.ok and not fired:
                    w.fail("raised", "closing %s again: %r" % (t.path, o))
                return
            outcome(t, o, fired, what)

        def leave(t, n, how, close_in):
            again = t.closed
            f = {"f0": len(d.faults.fired)}

            def inside():
                if not t.closed:
                    read(t, n)
                if close_in:
                    close(t, "closing inside its block")
                f["f0"] = len(d.faults.fired)

            def block():
                if how == "return":
                    def fn():
                        with t.h:
                            inside()
                            return 17
                    fn()
                elif how == "gen":
                    def gen():
                        with t.h:
                            inside()
                            yield 1
                    g = gen()
                    next(g)
                    g.close()
                else:
                    with t.h:
                        inside()
                        if how:
                            raise EXC[how]("leaving")
            try:
                o = w.call("block of %s %s" % (t.path, how), block)
            except Base as e:
                from sim.world import Outcome
                o = Outcome(False, None, "Base", "Base")
                e.__traceback__ = None
            fired = met_since(f["f0"])
            expected = {"raise": "Boom", "base": "Base", "stop": "StopIteration"}.get(how)
            if again or close_in:
                if not o.ok and o.kind != expected and not fired:
                    w.fail("raised", "leaving the block of the closed %s: %r" % (t.path, o))
                return
            outcome(t, o, fired, "leaving the block%s" % (" by " + how if how else ""), expected)

        def body(tid, ops):
            ops = list(ops)
            while ops:
                level(ops)
        with w.faults(p=pr["fault_p"], max=pr["fault_max"], short_p=pr["short_p"], ops=["chdir", "read", "close", "unlink", "open"]):
            common.run_threads(w, plan, body)
        for t in list(temps.values()):
            if not t.closed:
                close(t, "closing")
        after = {k: v for k, v in d.tree("/simdisk").items() if not k.startswith("tmp")}
        if after != before:
            w.fail("outside", "the tree changed: %s" % sorted(set(after) ^ set(before)))
        if d.fds:
            w.fail("not-closed", "open in the end: %s" % [of.path for of in d.fds.values()])
