"""C04: concurrent single operations on one memory file system are explained by one sequential order."""
from . import common, model


class State:
    """A tree of folders d*, files f* and links l* (two levels), and handles with positions."""
    __slots__ = ("ent", "ino", "hnd")

    def __init__(self):
        self.ent = {}       # path -> ("d",) | ("f", ino) | ("l", target)
        self.ino = {}       # ino -> (content, exec bits)
        self.hnd = {}       # handle -> (ino, position, mode)

    def copy(self):
        s = State()
        s.ent, s.ino, s.hnd = dict(self.ent), dict(self.ino), dict(self.hnd)
        return s

    def key(self):
        return (frozenset(self.ent.items()), frozenset(self.ino.items()), frozenset(self.hnd.items()))

    def dump(self):
        return {p: (e[0], self.ino[e[1]][0]) if e[0] == "f" else e for p, e in self.ent.items()}


class E(Exception):
    pass


def up(p):
    return p.rsplit("/", 1)[0]


def parent_there(s, p):
    return up(p) == "" or up(p) in s.ent


def resolve(s, p, follow=True):
    """the entry at p or None"""
    if not parent_there(s, p):
        return None
    e = s.ent.get(p)
    if e is not None and e[0] == "l" and follow:
        return resolve(s, e[1])
    return e


def names(s, d):
    return sorted(p[len(d) + 1:] for p in s.ent if up(p) == d)


def apply(s, op, uid):
    """Change s; return the result or raise E(kind)."""
    k, p = op[0], op[1]
    if k == "exists":
        return resolve(s, p) is not None
    if k in ("isfile", "isdir"):
        e = resolve(s, p)
        return e is not None and e[0] == k[2]
    if k == "islink":
        e = resolve(s, p, False)
        return e is not None and e[0] == "l"
    if k in ("mkdir", "symlink"):
        if not parent_there(s, p):
            raise E("ENOENT")
        if p in s.ent:
            raise E("EEXIST")
        s.ent[p] = ("d",) if k == "mkdir" else ("l", op[2])
        return None
    if k == "readlink":
        e = resolve(s, p, False)
        if e is None:
            raise E("ENOENT")
        return e[1]
    if k in ("listdir", "glob"):
        if p and p not in s.ent:
            raise E("ENOENT")
        return names(s, p)
    if k == "remove":
        e = resolve(s, p, False)
        if e is None or (e[0] != "l" and resolve(s, p) is None):
            raise E("MISSING")
        if e[0] == "d" and names(s, p):
            raise E("ENOTEMPTY")
        del s.ent[p]
        return None
    if k in ("size", "isexec", "set_exec"):
        e = resolve(s, p)
        if e is None:
            raise E("ENOENT")
        data, bits = s.ino[e[1]]
        if k == "size":
            return len(data)
        if k == "isexec":
            return bits != 0
        s.ino[e[1]] = (data, op[2])
        return None
    if k == "open":
        h, mode = op[2], op[3]
        e = resolve(s, p)
        if e is None:
            if mode == "rb" or not parent_there(s, p):
                raise E("ENOENT")
            e = s.ent[p] = ("f", uid)
            s.ino[uid] = (b"", 0)
        elif mode == "wb":
            s.ino[e[1]] = (b"", s.ino[e[1]][1])
        s.hnd[h] = (e[1], 0, mode)
        return None
    # on a handle
    h = p
    ino, pos, mode = s.hnd[h]
    data, bits = s.ino[ino]
    if k == "write":
        d = op[2]
        if mode == "ab":
            pos = len(data)
        if pos > len(data):
            data = data + b"\0" * (pos - len(data))
        data = data[:pos] + d + data[pos + len(d):]
        s.ino[ino] = (data, bits)
        s.hnd[h] = (ino, pos + len(d), mode)
        return len(d)
    if k == "read":
        n = op[2]
        r = data[pos:] if n < 0 else data[pos:pos + n]
        s.hnd[h] = (ino, pos + len(r), mode)
        return r
    if k == "close":
        return None
    raise AssertionError(k)


MAX_STATES = 200000


def outcome(op, o):
    if o.ok:
        return ("ok", o.value)
    if op[0] == "remove" and o.exc_text.startswith("FileDoesNotExistError"):
        return ("err", "MISSING")
    return ("err", o.kind)


def explain(init, recs, final, apply=apply):
    """Is there an order of recs (op, uid, outcome, t0, t1), respecting t1 < t0, from init to a state dumping as final?
    -> True, False or None (gave up)"""
    n = len(recs)
    before = [0] * n        # bit mask of the operations that ended before i began
    for i in range(n):
        for j in range(n):
            if recs[j][4] < recs[i][3]:
                before[i] |= 1 << j
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    while stack:
        done, s = stack.pop()
        if done == full:
            if s.dump() == final:
                return True
            continue
        for i in range(n):
            b = 1 << i
            if done & b or before[i] & ~done:
                continue
            op, uid, out, t0, t1 = recs[i]
            t = s.copy()
            try:
                got = ("ok", apply(t, op, uid))
            except E as e:
                got = ("err", str(e))
                t = s
            if got != out:
                continue
            key = (done | b, t.key())
            if key not in seen:
                if len(seen) > MAX_STATES:
                    return None
                seen.add(key)
                stack.append((done | b, t))
    return False


def threads(w, plan, uri, st, apply, handles):
    """make the calls of the plan and judge what was recorded"""
    init = st.copy()
    recs = []
    hseq = [0]
    uids = [1000]
    opened = {}

    def act(op):
        k, p = op[0], op[1]
        if k == "glob":
            return [x.path.rsplit("/", 1)[1] for x in uri(p).glob("*")]
        if k == "size":
            return uri(p).info().size
        if k == "symlink":
            return uri(op[2]).symlink(uri(p))
        if k == "readlink":
            return uri(p).readlink().path
        if k == "set_exec":
            return uri(p).set_exec(op[2])
        if k == "open":
            opened[op[2]] = uri(p).open(op[3])
            return None
        if k == "write":
            return handles[p][0].write(op[2])
        if k == "read":
            return handles[p][0].read(op[2])
        if k == "close":
            handles[p][0].close()
            return None
        return getattr(uri(p), k)()

    def body(tid, ops):
        slots = {}
        for op in ops:
            op = list(op)
            if op[0] == "io":
                h = slots.get(op[1]) or (op[1] if op[1] in handles and op[1][0] == "s" else None)
                if h is None:
                    continue
                mode = handles[h][1]
                op = ["read", h, op[3]] if mode == "rb" else ["write", h, (b"<%d>" % op[4]) * op[2]]
            elif op[0] == "close":
                h = slots.pop(op[1], None)
                if h is None:
                    continue
                op = ["close", h]
            elif op[0] == "open":
                hseq[0] += 1
                slot, name = op[2], "%s#%d" % (op[2], hseq[0])
                op = ["open", op[1], name, op[3]]
            uids[0] += 1
            uid = uids[0]
            o = w.call(" ".join(map(str, op))[:100], act, op)
            if op[0] == "open":
                slots.pop(slot, None)
                if o.ok:
                    handles[name] = (opened[name], op[3])
                    slots[slot] = name
            recs.append((op, uid, outcome(op, o), o.t0, o.t1, tid, o))
    common.run_threads(w, plan, body)
    with w.quiet():
        final = {}
        try:
            def rec(d):
                for name in uri(d).listdir():
                    u, p = uri(d) / name, d + "/" + name
                    if u.islink():
                        final[p] = ("l", u.readlink().path)
                    elif u.isdir():
                        final[p] = ("d",)
                        rec(p)
                    else:
                        with u.open("rb") as h:
                            final[p] = ("f", h.read())
            rec("")
        except Exception as e:
            w.fail("broken-tree", "looking at the final tree: %s: %s" % (type(e).__name__, e))
    r = explain(init, [x[:5] for x in recs], final, apply)
    if r is None:
        w.probe("gave-up")
    elif not r:
        lines = ["t%s %s -> %s [%d..%d]" % (x[5], " ".join(map(str, x[0])), x[6], x[3], x[4]) for x in sorted(recs, key=lambda x: x[3])]
        w.fail("not-atomic", "no sequential order explains: %s; initially %s; finally %s" % ("; ".join(lines), init.dump(), final))


class C04Linear:
    NAME = "c04_linear"

    @staticmethod
    def gen(rng, tier):
        nt, per = rng.choice([(2, 3), (2, 4), (2, 6), (3, 2), (3, 3), (3, 4), (4, 2)])
        dirs = ["/d0", "/d1"][:rng.choice([1, 1, 2])]
        spots = [""] + dirs if rng.random() < 0.7 else [dirs[0]]
        files = [rng.choice(spots) + "/" + f for f in ["f0", "f1"][:rng.choice([1, 2])]]
        links = [rng.choice(spots) + "/l0"]
        subs = [d + "/d2" for d in dirs[:1]] if rng.random() < 0.4 else []
        focus = rng.choice(["mix", "mix", "create", "handles", "dir", "link", "truncate", "truncate"])
        if focus == "truncate":
            nt, per = rng.choice([(2, 2), (2, 3), (3, 2)])
            files = ["/f0"]
        weights = {
            "mix": {"mkdir": 3, "rmdir": 3, "open": 6, "io": 6, "rmfile": 3, "link": 3, "q": 5},
            "create": {"mkdir": 4, "open": 6, "io": 4, "link": 3, "q": 2},
            "handles": {"open": 3, "io": 12, "q": 2},
            "dir": {"mkdir": 4, "rmdir": 6, "open": 4, "io": 1, "rmfile": 3, "q": 3},
            "link": {"link": 8, "rmfile": 2, "open": 4, "io": 2, "q": 4},
            "truncate": {"open": 4, "io": 8}}[focus]
        bag = [k for k, v in weights.items() for _ in range(v)]
        setup = []
        for d in dirs:
            if rng.random() < 0.6:
                setup.append(["mkdir", d])
        for p in files:
            if rng.random() < (0.5 if focus != "truncate" else 0.9):
                setup.append(["write", p, "init %s" % p])
        for p in links:
            if rng.random() < 0.4:
                setup.append(["symlink", p, files[0]])
        shared = [["s%d" % i, rng.choice(files), rng.choice(["rb", "ab", "ab", "wb"])]
                  for i in range(rng.choice([0, 0, 0, 1, 2] if focus != "truncate" else [1, 2]))]
        ops = []
        tag = 0
        for t in range(nt):
            for _ in range(per):
                k = rng.choice(bag)
                if k == "mkdir":
                    ops.append([t, "mkdir", rng.choice(dirs + subs)])
                elif k == "rmdir":
                    ops.append([t, "remove", rng.choice(dirs + subs)])
                elif k == "rmfile":
                    ops.append([t, "remove", rng.choice(files)])
                elif k == "link":
                    p = links[0]
                    r = rng.random()
                    ops.append([t, "symlink", p, rng.choice(files)] if r < 0.5 else [t, "remove", p] if r < 0.75 else
                               [t, rng.choice(["islink", "readlink", "exists", "isfile"]), p])
                elif k == "open":
                    mode = rng.choice(["wb", "ab", "ab", "rb"] if focus != "truncate" else ["wb", "wb", "rb", "ab"])
                    p = rng.choice(files + links) if mode == "rb" else rng.choice(files)
                    ops.append([t, "open", p, "t%d.%d" % (t, rng.randrange(2)), mode])
                elif k == "io":
                    h = rng.choice(["t%d.0" % t, "t%d.1" % t] + [x[0] for x in shared])
                    if rng.random() < 0.12 and h[0] == "t":
                        ops.append([t, "close", h])
                    else:
                        tag += 1
                        ops.append([t, "io", h, rng.choice([1, 3, 3, 20] if focus != "truncate" else [1, 3]),
                                    rng.choice([-1, -1, 2, 5] if focus != "truncate" else [1, 2]), tag])
                else:
                    q = rng.choice(["exists", "isfile", "isdir", "listdir", "listdir", "glob", "size", "isexec", "set_exec"])
                    if q in ("listdir", "glob"):
                        ops.append([t, q, rng.choice(spots)])
                    elif q == "isdir":
                        ops.append([t, q, rng.choice(dirs + subs)])
                    elif q == "set_exec":
                        ops.append([t, q, rng.choice(files), rng.choice([0, 0o100])])
                    elif q in ("size", "isexec"):
                        ops.append([t, q, rng.choice(files)])
                    else:
                        ops.append([t, q, rng.choice(files + links + dirs)])
        sim = common.sim_params(rng)
        if focus == "truncate" and sim["granularity"] == "line":
            sim["switch_p"] = rng.choice([0.1, 0.2, 0.35])
        return {"sim": sim, "ops": ops, "params": {"setup": setup, "shared": shared, "begun": rng.random() < (0.5 if focus != "truncate" else 0.9)}}

    nontrivial = staticmethod(common.switched)

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        st = State()
        handles = {}

        def uri(p):
            return w.URI("memory://" + (p or "/"))
        for i, s in enumerate(pr["setup"]):
            try:
                if s[0] == "write":
                    if up(s[1]) and up(s[1]) not in st.ent:
                        continue
                    with uri(s[1]).open("wb") as h:
                        h.write(s[2].encode())
                    st.ent[s[1]] = ("f", -i - 1)
                    st.ino[-i - 1] = (s[2].encode(), 0)
                elif s[0] == "mkdir":
                    uri(s[1]).mkdir()
                    apply(st, s, -i - 1)
                elif up(s[1]) == "" or up(s[1]) in st.ent:
                    uri(s[2]).symlink(uri(s[1]))
                    apply(st, s, -i - 1)
            except Exception as e:
                w.fail("setup", "%s: %s: %s" % (s, type(e).__name__, e))
        for i, (name, p, mode) in enumerate(pr["shared"]):
            if mode == "rb" and resolve(st, p) is None or not parent_there(st, p):
                continue
            handles[name] = (uri(p).open(mode), mode)
            apply(st, ["open", p, name, mode], -100 - i)
            if pr.get("begun"):
                # from somewhere in the file on
                op = ["read", name, 3] if mode == "rb" else ["write", name, b"begun"]
                getattr(handles[name][0], op[0])(op[2])
                apply(st, op, -200 - i)
        threads(w, plan, uri, st, apply, handles)


class TreeState:
    """The reference tree and the handles open in it."""

    def __init__(self):
        self.tree = model.Tree()
        self.hnd = {}       # handle -> (node, position, mode)

    def copy(self):
        s = TreeState()
        memo = {}
        s.tree.root = self.tree.root.clone(memo)
        s.hnd = {h: (n.clone(memo), p, m) for h, (n, p, m) in self.hnd.items()}
        return s

    def key(self):
        ids = {}

        def rec(n):
            k = ids.setdefault(id(n), len(ids))
            return (k, n.kind, n.data, n.target, n.exe,
                    None if n.entries is None else tuple((x, rec(n.entries[x])) for x in sorted(n.entries)))
        return (rec(self.tree.root), tuple((h, rec(n), p, m) for h, (n, p, m) in sorted(self.hnd.items())))

    def dump(self):
        return {"/" + p: e for p, e in self.tree.dump().items()}


def apply_tree(s, op, uid):
    try:
        return _apply_tree(s, op)
    except model.Err as e:
        raise E(e.kind)


def _apply_tree(s, op):
    t = s.tree
    k, p = op[0], op[1]
    if k in ("exists", "isfile", "isdir", "islink", "listdir", "mkdir", "readlink"):
        return getattr(t, k)(p)
    if k == "symlink":
        return t.symlink(op[2], p)
    if k == "remove":
        if not t.islink(p) and not t.exists(p):
            raise E("MISSING")
        return t.remove(p, False)
    if k == "size":
        n = t.node(p)
        return len(n.data) if n.kind == "f" else 0
    if k == "isexec":
        return t.node(p).exe != 0
    if k == "set_exec":
        t.node(p).exe = op[2]
        return None
    if k == "open":
        h, mode = op[2], op[3]
        if mode == "rb":
            n = t.node(p)
            if n.kind == "d":
                raise E("EISDIR")
        else:
            n = t.open_w(p, mode == "wb")
        s.hnd[h] = (n, 0, mode)
        return None
    n, pos, mode = s.hnd[p]
    if k == "write":
        d = op[2]
        if mode == "ab":
            pos = len(n.data)
        data = n.data + b"\0" * (pos - len(n.data))
        n.data = data[:pos] + d + data[pos + len(d):]
        s.hnd[p] = (n, pos + len(d), mode)
        return len(d)
    if k == "read":
        r = n.data[pos:] if op[2] < 0 else n.data[pos:pos + op[2]]
        s.hnd[p] = (n, pos + len(r), mode)
        return r
    if k == "close":
        return None
    raise AssertionError(k)


class C04Clash:
    """Few names, any of which may be a folder, a file or a link by the time it is used."""
    NAME = "c04_clash"

    @staticmethod
    def gen(rng, tier):
        nt, per = rng.choice([(2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2)])
        paths = ["/x", "/x/y"] + rng.sample(["/y", "/x/x", "/y/x", "/y/y"], rng.choice([0, 1, 2]))
        kinds = ["file"] * 4 + ["dir"] * 4 + ["remove"] * 6 + ["link"] * rng.choice([0, 2, 4]) + ["query"] * 3 + ["io"] * 4
        setup, ops = [], []
        for p in sorted(paths, key=len):
            r = rng.random()
            if r < 0.7:
                setup.append(["mkdir", p] if r < (0.5 if p.count("/") == 1 else 0.2) else ["write", p, "init %s" % p] if r < 0.6 else
                             ["symlink", p, rng.choice(paths)])
        tag = 0
        for t in range(nt):
            for i in range(per):
                k, p = rng.choice(kinds), rng.choice(paths)
                if k == "dir":
                    ops.append([t, "mkdir", p])
                elif k == "remove":
                    ops.append([t, "remove", p])
                elif k == "file":
                    ops.append([t, "open", p, "t%d" % t, rng.choice(["wb", "wb", "ab", "rb"])])
                elif k == "link":
                    ops.append([t, "symlink", p, rng.choice(paths)] if rng.random() < 0.6 else [t, rng.choice(["islink", "readlink"]), p])
                elif k == "io":
                    tag += 1
                    ops.append([t, "io", "t%d" % t, rng.choice([1, 3]), rng.choice([-1, -1, 2]), tag])
                else:
                    q = rng.choice(["exists", "isfile", "isdir", "listdir", "size", "isexec", "set_exec"])
                    ops.append([t, q, p, rng.choice([0, 0o100])] if q == "set_exec" else [t, q, p])
        return {"sim": common.sim_params(rng), "ops": ops, "params": {"setup": setup, "shared": []}}

    nontrivial = staticmethod(common.switched)

    @staticmethod
    def run(w, plan):
        st = TreeState()

        def uri(p):
            return w.URI("memory://" + (p or "/"))
        for s in plan["params"]["setup"]:
            try:
                up_ = st.tree.maybe(up(s[1]) or "/")
                if up_ is None or up_.kind != "d" or st.tree.maybe(s[1], False) is not None:
                    continue
                if s[0] == "write":
                    with uri(s[1]).open("wb") as h:
                        h.write(s[2].encode())
                    st.tree.write(s[1], s[2].encode())
                elif s[0] == "mkdir":
                    uri(s[1]).mkdir()
                    st.tree.mkdir(s[1])
                else:
                    uri(s[2]).symlink(uri(s[1]))
                    st.tree.symlink(s[2], s[1])
            except Exception as e:
                w.fail("setup", "%s: %s: %s" % (s, type(e).__name__, e))
        threads(w, plan, uri, st, apply_tree, {})
