"""C17: modification times on the memory file system."""
from . import common
from .model import Err, N, Skip, Tree, parts

NAMES = ["a", "b", "c"]
WRITES = ["mkdir", "makedirs", "create", "create", "write", "write", "h-write", "h-write", "h-write", "h-trunc", "set", "set", "set-manipulate", "copystat", "copystat",
          "copy", "copy", "copy-r", "lock", "lock-write", "remove", "append-write", "h-open-w", "h-open-a"]
READS = ["read", "read", "readline", "list", "query", "query", "info", "walk", "md5", "glob", "h-open-r", "h-open-r", "h-read", "h-seek", "h-flush", "h-close", "h-close",
         "append-open", "mode", "set_exec", "symlink", "failing", "callback", "with-r"]

OTHERS = ("read", "readline", "with-r", "list", "query", "info", "walk", "md5", "glob", "h-open-r")


class Boom(Exception):
    pass


class C17Times:
    NAME = "c17_times"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        only = rng.choice([None, None, None, "handles", "copies"])
        for k in range(rng.choice([5, 10, 20, 40])):
            t = rng.randrange(nt)

            def path():
                p = "/" + rng.choice(NAMES)
                while rng.random() < 0.35:
                    p += "/" + rng.choice(NAMES)
                return p
            r = rng.random()
            if r < 0.12:
                ops.append([t, "clock", rng.choice([3600, -3600, -86400 * 400, 86400 * 400, 1, -1, -0.5])])
            elif r < 0.2:
                ops.append([t, "pause", rng.choice([0.001, 1, 100])])
            elif r < 0.62:
                kind = rng.choice(WRITES)
                if only == "handles" and rng.random() < 0.6:
                    kind = rng.choice(["create", "write", "h-write", "h-trunc", "h-open-w", "h-open-a"])
                if only == "copies" and rng.random() < 0.6:
                    kind = rng.choice(["create", "set", "copystat", "copy", "copy-r"])
                ops.append([t, kind, path(), k, path()])
            else:
                ops.append([t, rng.choice(READS), path(), k, path()])
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=2000000), "ops": ops,
                "params": {"still": rng.random() < 0.15}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("changed", 0) >= 3 and r["ops"] >= 4

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        tids = sorted({o[0] for o in plan["ops"]})
        many = len(tids) > 1
        trees_ = {t: Tree() for t in tids}
        links_made = [False]
        w.sim.step_cap = 4000000

        def base(t):
            return "memory:///t%d" % t if many else "memory://"

        with w.quiet():
            for t in tids:
                if many:
                    w.URI(base(t)).mkdir()
        moves = []          # clock readings at which the clock was set, with what it was before

        def body(tid, ops):
            tree = trees_[tid]
            handles = []       # [handle, node, mode]

            def uri(p):
                return w.URI(base(tid) + p)

            def span(fn):
                """-> (outcome, (earliest, latest) clock reading meanwhile)"""
                t0, m0 = w.now(), len(moves)
                o = fn()
                t1 = w.now()
                rs = [t0, t1]
                # set meanwhile: what it was just before and just after
                for a, b in moves[m0:]:
                    rs += [a, b]
                return o, (min(rs), max(rs))

            def stamped(n, s):
                n.time = s
                w.probe("changed")

            def node(p):
                try:
                    return tree.node(p)
                except Err:
                    return None

            def check(what, only=None):
                def rec(n, p):
                    if n.kind == "l":
                        return
                    if n.time is not None:
                        u = uri(p)
                        got = u.mtime()
                        i = u.info().mtime
                        if got != i:
                            w.fail("times-differ", "after %s: mtime of %s is %r, in its info %r" % (what, p, got, i))
                        if not n.time[0] <= got <= n.time[1]:
                            w.fail("time", "after %s: the time of %s is %+.3f off, being %r" % (what, p, got - n.time[0], got))
                    if n.kind == "d":
                        for k in sorted(n.entries):
                            rec(n.entries[k], p + "/" + k)
                with w.quiet():
                    for k in sorted(tree.root.entries):
                        rec(tree.root.entries[k], "/" + k)

            def made_on_way(before, p, s):
                """folders makedirs made"""
                for k in range(1, len(parts(p)) + 1):
                    n = tree.maybe("/" + "/".join(parts(p)[:k]), False)
                    if n is not None and n.kind == "d" and n.time is None:
                        stamped(n, s)

            for op in ops:
                kind = op[0]
                if kind == "clock":
                    before = w.now()
                    w.step_clock(op[1])
                    moves.append((before, w.now()))
                    continue
                if kind == "pause":
                    w.sleep(op[1])
                    continue
                _, p, k, q = op
                if not pr["still"]:
                    w.sleep(0.25)
                try:
                    step(kind, p, k, q, uri, tree, handles, span, stamped, node, made_on_way)
                except Skip:
                    continue
                check("%s %s" % (kind, op[1:]))

        def ok(o, what):
            if not o.ok:
                w.fail("raised", "%s: %r" % (what, o))

        def step(kind, p, k, q, uri, tree, handles, span, stamped, node, made_on_way):
            u = uri(p)
            data = b"%d," % k

            def expect(fn):
                """the reference: applied, or refused (then nothing may happen)"""
                c = tree.clone()
                try:
                    fn(c)
                except Err:
                    return False
                return True
            n = node(p)
            if kind == "mkdir":
                good = expect(lambda c: c.mkdir(p))
                o, s = span(lambda: w.call("mkdir " + p, u.mkdir))
                if good:
                    ok(o, kind)
                    tree.mkdir(p)
                    stamped(node(p), s)
            elif kind == "makedirs":
                good = expect(lambda c: c.makedirs(p))
                if not good:
                    raise Skip()
                o, s = span(lambda: w.call("makedirs " + p, u.makedirs))
                ok(o, kind)
                tree.makedirs(p)
                made_on_way(None, p, s)
            elif kind in ("create", "write", "append-write", "append-open", "h-open-w", "h-open-a"):
                append = kind in ("append-write", "append-open", "h-open-a")
                good = expect(lambda c: c.open_w(p, not append))
                was = n
                if kind in ("h-open-w", "h-open-a"):
                    o, s = span(lambda: w.call("%s %s" % (kind, p), u.open, "ab" if append else "wb"))
                    if good:
                        ok(o, kind)
                        m = tree.open_w(p, not append)
                        if was is None or not append:
                            stamped(m, s)
                        handles.append([o.value, m, "w"])
                    return

                def act():
                    with u.open(["ab", "a"][k % 2] if append else ["wb", "w"][k % 2]) as h:
                        if kind in ("write", "append-write"):
                            h.write(data if k % 2 == 0 else data.decode())
                o, s = span(lambda: w.call("%s %s" % (kind, p), act))
                if good:
                    ok(o, kind)
                    m = tree.open_w(p, not append)
                    if was is None or not append or kind == "append-write":
                        stamped(m, s)
            elif kind in ("lock", "lock-write"):
                good = expect(lambda c: c.open_w(p))
                if not good:
                    raise Skip()
                seen = {}

                def act():
                    with u.lock(fail_on_lock=True) as h:
                        if kind == "lock-write":
                            h.write(data)
                        seen["in"] = w.now()
                        if k % 3:
                            w.sleep(5)
                t0 = w.now()
                o = w.call("%s %s" % (kind, p), act)
                ok(o, kind)
                m = tree.open_w(p)
                stamped(m, (min(t0, seen["in"]), max(t0, seen["in"])))
            elif kind in ("h-write", "h-trunc"):
                mine = [h for h in handles if h[2] == "w"]
                if not mine:
                    raise Skip()
                h, m, _ = mine[k % len(mine)]
                o, s = span(lambda: w.call(kind, h.write, data) if kind == "h-write" else w.call(kind, h.truncate, 0))
                ok(o, kind)
                stamped(m, s)
            elif kind in ("set", "set-manipulate"):
                t = [0, 1.5, 1e9, -5.0, 12345, w.now() + 100, w.now() - 100][k % 7]
                if kind == "set":
                    fn = lambda: u.info(set_info={"mtime": t} if k % 2 else {"mtime": t, "mode": 0o600})
                else:
                    fn = lambda: u._manipulate(mtime=t)
                o = w.call("%s %s" % (kind, p), fn)
                if n is not None:
                    ok(o, kind)
                    stamped(n, (t, t))
            elif kind == "copystat":
                m = node(q)
                if n is None or m is None:
                    raise Skip()
                o = w.call("copystat %s %s" % (p, q), u.copystat, uri(q))
                ok(o, kind)
                stamped(m, n.time)
            elif kind == "copy":
                if n is None or n.kind != "f":
                    raise Skip()
                to = q
                if tree.isdir(q):
                    to = q + "/" + parts(p)[-1]
                good = expect(lambda c: c.open_w(to))
                m = tree.maybe(to)
                if not good or m is n:
                    raise Skip()
                o = w.call("copy %s %s" % (p, q), u.copy, uri(q))
                ok(o, kind)
                stamped(tree.open_w(to), n.time)
            elif kind == "copy-r":
                if n is None or n.kind != "d" or tree.islink(p):
                    raise Skip()
                to = q
                if tree.isdir(q):
                    to = q + "/" + parts(p)[-1]
                if linked(n) or to == p or to.startswith(p + "/") or p.startswith(to + "/") or any(
                        tree.islink("/" + "/".join(parts(x)[:i])) for x in (p, to) for i in range(1, len(parts(x)) + 1)):
                    raise Skip()
                d = tree.maybe(to, False)
                if d is not None and (d.kind != "d" or linked(d) or clash(n, d)):
                    raise Skip()
                if not expect(lambda c: c.makedirs(to)):
                    raise Skip()
                o, s = span(lambda: w.call("copy-r %s %s" % (p, q), u.copy, uri(q), recursive=True))
                ok(o, kind)
                tree.makedirs(to)
                made_on_way(None, to, s)

                def rec(a, b):
                    for name in sorted(a.entries):
                        v = a.entries[name]
                        m = b.entries.get(name)
                        if v.kind == "f":
                            if m is None:
                                m = b.entries[name] = N("f")
                            stamped(m, v.time)
                        else:
                            if m is None:
                                m = b.entries[name] = N("d")
                                stamped(m, s)
                            rec(v, m)
                rec(n, node(to))
            elif kind == "remove":
                if n is None or tree.islink(p):
                    raise Skip()
                o = w.call("remove " + p, u.remove, "r")
                ok(o, kind)
                tree.remove(p, True)
            # ---- from here on nothing may change a time
            elif many and k % 3 == 0 and kind in OTHERS:
                # somebody else's
                t = tids[k % len(tids)]
                step(kind, p, k + 1, q, lambda x: w.URI(base(t) + x), tree, handles, span, stamped, node, made_on_way)
            elif kind in ("read", "readline", "with-r"):
                def act():
                    h = u.open([None, "r", "rb"][k % 3])
                    if kind == "with-r":
                        with h:
                            h.read(3)
                            raise Boom()
                    if kind == "read":
                        h.read(*([] if k % 2 else [2]))
                    else:
                        h.readline()
                        list(h)
                    h.seek(0)
                    h.close()
                w.call("%s %s" % (kind, p), act)
            elif kind == "list":
                w.call("list " + p, u.listdir)
            elif kind == "query":
                for x in ("exists", "isfile", "isdir", "islink", "mtime"):
                    w.call("%s %s" % (x, p), getattr(u, x))
                w.call("isexec " + p, u.isexec)
            elif kind == "info":
                w.call("info " + p, u.info, followlinks=bool(k % 2))
            elif kind == "walk":
                w.call("walk " + p, lambda: list(u.walk(followlinks=False)))
            elif kind == "md5":
                w.call("md5 " + p, u.md5)
            elif kind == "glob":
                w.call("glob " + p, u.glob, "*")
            elif kind == "h-open-r":
                o = w.call("h-open-r " + p, u.open, "rb")
                if o.ok:
                    handles.append([o.value, n, "r"])
            elif kind in ("h-read", "h-seek", "h-flush", "h-close"):
                mine = [h for h in handles if h[2] == "r" or kind != "h-read"]
                if not mine:
                    raise Skip()
                h = mine[k % len(mine)]
                if kind == "h-read":
                    w.call(kind, h[0].read, [-1, 0, 1, 100][k % 4])
                elif kind == "h-seek":
                    w.call(kind, h[0].seek, 0)
                elif kind == "h-flush":
                    w.call(kind, h[0].flush)
                else:
                    w.call(kind, h[0].close)
                    handles.remove(h)
            elif kind == "mode":
                w.call("mode " + p, u.info, {"mode": 0o644})
            elif kind == "set_exec":
                w.call("set_exec " + p, u.set_exec, 0o111)
            elif kind == "symlink":
                if tree.maybe(q, False) is not None or q.startswith(p) or p.startswith(q) or many:
                    # (link targets are absolute)
                    raise Skip()
                if expect(lambda c: c.symlink(p, q)):
                    o = w.call("symlink %s %s" % (p, q), u.symlink, uri(q))
                    ok(o, kind)
                    tree.symlink(p, q)
            elif kind == "failing":
                # operations that are refused
                if n is not None:
                    w.call("mkdir again", u.mkdir)
                    if n.kind == "d":
                        w.call("open a folder", u.open, "wb")
                        w.call("open a folder", u.open, "ab")
                    else:
                        w.call("below a file", uri(p + "/x").mkdir)
                        w.call("below a file", uri(p + "/x").open, "wb")
            elif kind == "callback":
                def cb(path, func):
                    raise Boom()
                u._manipulate(next_op_callback=cb)
                for m in ("wb", "ab", "rb"):
                    w.call("open " + m, u.open, m)
                w.call("copystat", u.copystat, uri(q))
                u._manipulate(next_op_callback=None)
            else:
                raise AssertionError(kind)

        def linked(n):
            return n.kind == "d" and any(v.kind == "l" or linked(v) for v in n.entries.values())

        def clash(a, b):
            return any((k in b.entries) and (a.entries[k].kind != b.entries[k].kind or a.entries[k] is b.entries[k]
                       or a.entries[k].kind == "d" and clash(a.entries[k], b.entries[k])) for k in a.entries)
        common.run_threads(w, plan, body)
