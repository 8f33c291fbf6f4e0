"""C16: injected errors on the memory file system."""
from . import common, trees
from .trees import TOP

LEAF = ["exists", "isfile", "isdir", "islink", "isexec", "set_exec", "readlink", "symlink-from", "mtime", "listdir", "info", "info-set", "lock",
        "open-r", "open-w", "open-a", "mkdir", "mkdir", "remove", "remove", "copystat"]
COMPOSITE = ["makedirs", "md5", "glob", "copy", "copy-r", "move", "remove-r", "walk"]
PATHS = [TOP + "/s", TOP + "/s/a", TOP + "/s/a/b", TOP + "/s/b", TOP + "/s/c", TOP + "/s/ab", TOP + "/o", TOP + "/o/a", TOP + "/new", TOP + "/s/new/deep", TOP]
BEHAVE = ["ok", "ok", "raise", "raise", "raise", "raise-2nd", "stall", "nested", "remove-self", "replace-self"]


class Boom(Exception):
    pass


class C16Callbacks:
    NAME = "c16_callbacks"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        es = trees.gen_tree(rng, TOP + "/s", rng.choice([4, 8]), ["a", "b", "c", "ab"], sizes=[0, 5], links=rng.random() < 0.5, link_tops=[TOP + "/o"])
        es += trees.gen_tree(rng, TOP + "/o", 3, ["a", "b"], sizes=[0, 5], tag0=500, links=False)
        pool = rng.sample(PATHS, rng.choice([2, 3, 5])) + [rng.choice(es)[1]]
        ops = []
        if nt > 1:
            for p in sorted(set(pool)):
                if rng.random() < 0.7:
                    ops.append([0, "install", rng.randrange(2), p, rng.choice(["ok", "ok", "raise", "stall", "nested"]), rng.randrange(5)])
        for k in range(rng.choice([4, 8, 16, 25])):
            t = rng.randrange(nt)
            i = rng.choice([0, 0, 0, 1])
            p = rng.choice(pool)
            r = rng.random()
            if r < 0.22 and nt == 1:
                ops.append([t, "install", i, p, rng.choice(BEHAVE), rng.randrange(5)])
            elif r < 0.3 and nt == 1:
                ops.append([t, "uninstall", i, p])
            elif r < 0.34 and nt == 1:
                ops.append([t, "manipulate", i, p, rng.choice([1.0, 5e8])])
            elif r < 0.85:
                ops.append([t, rng.choice(LEAF), i, p, rng.random() < 0.1, rng.choice(pool)])
            else:
                ops.append([t, rng.choice(COMPOSITE), i, p, False, rng.choice(pool)])
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=2000000), "ops": ops, "params": {"entries": es}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("invoked", 0) >= 1 and r["ops"] >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        # two file systems with callbacks, and for each one without that does the same
        fss = [trees.FS(w, "M0"), trees.FS(w, "M1")]
        twins = [trees.FS(w, "M2"), trees.FS(w, "M3")]
        with w.quiet():
            for f in fss + twins:
                f.build(pr["entries"])
        many = len({o[0] for o in plan["ops"]}) > 1
        installed = {}      # (instance, path) -> callback
        calls = []
        dead = set()        # tasks that are about something else
        state = {}

        def dump(fs):
            me = w.sim.current.id
            was = me in dead
            dead.add(me)
            try:
                return fs.dump(meta=True)
            finally:
                if not was:
                    dead.discard(me)

        def no_times(d):
            return {k: v[:3] for k, v in d.items()}

        class Callback:
            def __init__(self, n, inst, path, how, ret):
                self.n, self.inst, self.path, self.how = n, inst, path, how
                self.ret = [None, False, True, 0, "x"][ret]
                self.count = 0

            def __call__(self, path, func):
                if w.sim.current.id in dead:
                    return
                self.count += 1
                me = w.sim.current.id
                e = None
                if self.how == "raise" or (self.how == "raise-2nd" and self.count >= 2):
                    e = [Boom("%d" % self.n), OSError(28, "full"), KeyError("x"), IOError(5, "io")][self.n % 4]
                calls.append((self, me, getattr(path, "path", None), e))
                w.probe("invoked")
                if not many and state.get("before") is not None and "seen" not in state:
                    state["seen"] = dump(fss[self.inst])
                if self.how == "stall":
                    w.sleep(1)
                elif self.how == "nested":
                    # it may use the file system itself
                    dead.add(me)
                    try:
                        fss[self.inst].uri(TOP + "/elsewhere").exists()
                        fss[1 - self.inst].uri(TOP).listdir()
                    finally:
                        dead.discard(me)
                elif self.how == "remove-self":
                    fss[self.inst].uri(self.path)._manipulate(next_op_callback=None)
                    installed.pop((self.inst, self.path), None)
                elif self.how == "replace-self":
                    install(self.inst, self.path, "ok", 0)
                if e is not None:
                    raise e
                return self.ret

        made = [0]

        def install(inst, path, how, ret):
            made[0] += 1
            cb = Callback(made[0], inst, path, how, ret)
            fss[inst].uri(path + ("/" if ret == 4 else ""))._manipulate(next_op_callback=cb)
            installed[(inst, path)] = cb

        def do(fs, kind, path, slash, other, hold):
            u = fs.uri(path + ("/" if slash else ""))
            if kind in ("exists", "isfile", "isdir", "islink", "mtime", "mkdir", "listdir", "remove", "md5", "makedirs"):
                return getattr(u, kind)()
            if kind == "isexec":
                return u.isexec()
            if kind == "set_exec":
                return u.set_exec(0o100)
            if kind == "readlink":
                return u.readlink().path
            if kind == "symlink-from":
                return u.symlink(fs.uri(other))
            if kind == "info":
                i = u.info()
                return i.mode, i.size
            if kind == "info-set":
                return u.info(set_info={"mode": 0o700})
            if kind == "lock":
                # (not entered)
                u.lock(fail_on_lock=True)
                return
            if kind.startswith("open-"):
                h = u.open(kind[5:] + "b")
                hold.append(h)
                return
            if kind == "copystat":
                return u.copystat(fs.uri(other))
            if kind == "glob":
                return sorted(x.path for x in u.glob("*"))
            if kind == "copy":
                return u.copy(fs.uri(other))
            if kind == "copy-r":
                return u.copy(fs.uri(other), recursive=True)
            if kind == "move":
                return u.move(fs.uri(other))
            if kind == "remove-r":
                return u.remove("r")
            if kind == "walk":
                u.walk(followlinks=False)
                return
            raise AssertionError(kind)

        def body(tid, ops):
            for op in ops:
                kind, inst, path = op[:3]
                if kind == "install":
                    if not many:
                        n = len(calls)
                        o = w.call("install %d %s %s" % (inst, path, op[3]), install, inst, path, op[3], op[4])
                        if not o.ok or len(calls) > n:
                            w.fail("raised", "installing a callback on %s: %r, %d invocations" % (path, o, len(calls) - n))
                    continue
                if kind == "uninstall":
                    n = len(calls)
                    o = w.call("uninstall %s" % path, lambda: fss[inst].uri(path)._manipulate(next_op_callback=None))
                    if not o.ok or len(calls) > n:
                        w.fail("raised", "removing the callback of %s: %r, %d invocations" % (path, o, len(calls) - n))
                    installed.pop((inst, path), None)
                    continue
                if kind == "manipulate":
                    for fs in (fss[inst], twins[inst]):
                        w.call("manipulate %s" % path, lambda: fs.uri(path)._manipulate(mtime=op[3]))
                    continue
                _, _, _, slash, other = op
                fs = fss[inst]
                cb = installed.get((inst, path))
                me = w.sim.current.id
                n0 = len(calls)
                if kind in ("copy-r", "move", "copy"):
                    if many:
                        continue
                    fs.resync(no_meta(dump(fs)))
                    t = fs.tree
                    if trees.below(other, path) or trees.below(path, other) or t.isdir(path) and (t.cyclic(path) or t.cyclic(other)):
                        continue
                if path == TOP and kind in ("remove", "remove-r", "move"):
                    continue        # where everything is
                hold = []
                caught = []
                if not many:
                    state.clear()
                    state["before"] = dump(fs)

                def act():
                    try:
                        return do(fs, kind, path, slash, other, hold)
                    except Exception as e:
                        caught.append(e)
                        raise
                o = w.call("%s %d:%s%s" % (kind, inst, path, " " + other if kind in ("symlink-from", "copystat", "copy", "copy-r", "move") else ""), act)
                mine = [c for c in calls[n0:] if c[1] == me]
                what = "%s of %s on file system %d" % (kind, path, inst)
                if kind in LEAF:
                    want = 0 if cb is None else 1
                    if len(mine) != want:
                        w.fail("not-invoked" if len(mine) < want else "invoked", "%s invoked callbacks %d times, not %d: %s" % (
                            what, len(mine), want, [(c[0].n, c[0].path) for c in mine]))
                elif cb is not None and not mine:
                    w.fail("not-invoked", "%s did not invoke the callback" % what)
                if cb is not None and mine:
                    if mine[0][0] is not cb:
                        w.fail("wrong-callback", "%s invoked callback %d of %s first, installed is %d" % (what, mine[0][0].n, mine[0][0].path, cb.n))
                    if mine[0][2] is None or mine[0][2].rstrip("/") != path.rstrip("/"):
                        w.fail("wrong-path", "%s invoked its callback with %r" % (what, mine[0][2]))
                for c in mine:
                    if c[2] is None or c[2].rstrip("/") != c[0].path.rstrip("/") or c[0].inst != inst:
                        w.fail("wrong-path", "%s invoked the callback of %s on file system %d with %r" % (what, c[0].path, c[0].inst, c[2]))
                    # the callbacks that count are those which are installed
                    if not many and kind in LEAF and c[0] is not cb:
                        w.fail("wrong-callback", "%s invoked callback %d, installed is %s" % (what, c[0].n, cb and cb.n))
                e = mine[0][3] if mine and cb is not None else None
                if e is not None:
                    if not caught or caught[0] is not e:
                        w.fail("not-raised", "the callback of %s raised %r, the caller got %r" % (what, e, o))
                for x in caught:
                    x.__traceback__ = None
                if many:
                    continue
                after = dump(fs)
                if cb is not None and mine and state.get("seen") != state["before"]:
                    w.fail("effect-before", "%s had an effect before its callback: %s" % (what, trees.diff(state["seen"], state["before"])))
                if e is not None:
                    if after != state["before"]:
                        w.fail("changed", "%s raised the injected error and changed something: %s" % (what, trees.diff(after, state["before"])))
                    continue
                if any(c[3] is not None for c in mine):
                    # a part of it failed; its twin goes on from the same state
                    break
                # as if there was no callback
                hold2 = []
                o2 = w.call("the same without", lambda: do(twins[inst], kind, path, slash, other, hold2))
                if (o.ok, o.kind) != (o2.ok, o2.kind) or (o.ok and kind not in ("mtime",) and o.value != o2.value):
                    w.fail("changed", "%s: %r, without callbacks %r" % (what, o, o2))
                a, b = no_times(after), no_times(dump(twins[inst]))
                if a != b:
                    w.fail("changed", "%s differs from the same without callbacks: %s" % (what, trees.diff(a, b, ("is", "without"))))

        def no_meta(d):
            return trees.strip_meta(d)
        if many:
            for op in plan["ops"]:
                if op[1] == "install":
                    install(op[2], op[3], op[4], op[5])
        common.run_threads(w, plan, body)
