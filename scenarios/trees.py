"""Several file systems side by side, each with a reference tree; shared by the scenarios on copying, moving and removing.

All of them keep their things below the folder /simdisk, so that the target of a
link means the same in every one of them.
"""
import errno
import io
import zipfile

from sim import disk
from . import model
from .model import Err, Skip, Tree, N, parts

TOP = "/simdisk"


class Overlap(Exception):
    """The operation would change what it reads from."""


def content(tag, size):
    """Distinct bytes for every tag."""
    if not size:
        return b""
    head = b"<%d:%d>" % (tag, size)
    return (head + bytes((tag * 37 + i * (1 + tag % 5)) % 256 for i in range(max(0, size - len(head)))))[:max(size, len(head))]


class FS:
    """One file system: how to address, build and dump it."""

    def __init__(self, w, name):
        # "L", "M0", "M1", "ZL" (zip on local), "ZM" (zip on memory)
        self.w, self.name = w, name
        self.kind = name[0]
        self.tree = Tree()
        self.host = {"ZL": "/simdisk/arch/x.zip", "ZM": "memory:///simdisk/arch/x.zip"}.get(name)

    def spelled(self, path, style, slash_ok=True):
        """the URI of path in another spelling: +4 with a slash behind (folders), 1 as file://, 2 or 3 relative (to TOP)"""
        t = self.tree
        if style & 4 and slash_ok and self.kind != "Z" and path != "/":
            n = t.maybe(path, False)
            if n is not None and n.kind == "d":
                path += "/"
        if self.kind == "L":
            if style & 3 == 1:
                path = "file://" + path
            elif style & 3 == 2 and path.startswith(TOP + "/"):
                path = "." + path[len(TOP):]
            elif style & 3 == 3 and path.startswith(TOP + "/"):
                path = path[len(TOP) + 1:]
        return self.uri(path)

    def uri(self, path):
        w = self.w
        if self.kind == "L":
            return w.URI(path)
        if self.kind == "Z":
            return w.URI("zip://((%s))%s" % (self.host, path))
        if self.name == "M0":
            return w.URI("memory://" + path)
        return w.URI("memory://" + path, inst=self.name)

    def build(self, entries):
        """entries: [kind, path, ...] parents first; applied to the model and, by the shortest way, to the real thing."""
        w = self.w
        t = self.tree
        if self.kind == "Z":
            buf = io.BytesIO()
            z = zipfile.ZipFile(buf, "w")
            for e in entries:
                if e[0] == "f":
                    z.writestr(zipfile.ZipInfo(e[1]), content(e[2], e[3]))
                    up = "/" + "/".join(parts(e[1])[:-1])
                    t.makedirs(up)
                    t.write(e[1], content(e[2], e[3]))
            z.close()
            return buf.getvalue()
        t.makedirs(TOP)
        if self.kind == "M":
            self.uri(TOP).makedirs()
        for e in entries:
            try:
                if e[0] == "d":
                    t.mkdir(e[1])
                elif e[0] == "f":
                    t.write(e[1], e[4] if len(e) > 4 and isinstance(e[4], bytes) else content(e[2], e[3]))
                else:
                    t.symlink(e[2], e[1])
            except (Err, Skip):
                continue
            if self.kind == "L":
                if e[0] == "d":
                    w.disk.put_dir(e[1])
                elif e[0] == "f":
                    w.disk.put_file(e[1], t.read(e[1]))
                else:
                    w.disk.put_link(e[1], e[2])
            else:
                u = self.uri(e[1])
                if e[0] == "d":
                    u.mkdir()
                elif e[0] == "f":
                    with u.open("wb") as h:
                        h.write(t.read(e[1]))
                else:
                    self.uri(e[2]).symlink(u)
        return None

    def put(self, path, data):
        """A file whose folder might be missing (set-up)."""
        self.tree.makedirs("/" + "/".join(parts(path)[:-1]))
        self.tree.write(path, data)
        if self.kind == "L":
            p = ""
            for c in parts(path)[:-1]:
                p += "/" + c
                if p != TOP:
                    self.w.disk.put_dir(p)
            self.w.disk.put_file(path, data)
        else:
            u = self.uri(path)
            u.directory().makedirs()
            with u.open("wb") as h:
                h.write(data)

    def dump(self, meta=False):
        """{path: ("d",) | ("f", bytes[, mtime, mode]) | ("l", target)} without the top folder; nothing of it may fail"""
        w = self.w
        out = {}
        if self.kind == "L":
            for k, v in w.disk.tree(TOP, meta).items():
                if k:
                    out[TOP + "/" + k] = v
            return out
        if self.kind == "Z":
            return {}

        def rec(u, rel):
            for k in u.listdir():
                c, p = u / k, rel + "/" + k
                if c.islink():
                    out[p] = ("l", c.readlink().path)
                elif c.isdir():
                    out[p] = ("d",)
                    rec(c, p)
                elif c.isfile():
                    h = c.open("rb")
                    b = h.read()
                    h.close()
                    out[p] = ("f", b)
                    if meta:
                        i = c.info()
                        out[p] += (i.mode, i.mtime)
                else:
                    out[p] = ("?",)
        with w.quiet(), w.no_faults():
            rec(self.uri(TOP), TOP)
        return out

    def model(self):
        if self.kind == "Z":
            return {}
        return {"/" + k: v for k, v in self.tree.dump().items() if k != TOP[1:]}

    def resync(self, dump):
        t = Tree()
        t.makedirs(TOP)
        for k in sorted(dump):
            *up, name = parts(k)
            d = t.root
            for x in up:
                d = d.entries[x]
            v = dump[k]
            n = d.entries[name] = N(v[0])
            if v[0] == "f":
                n.data = v[1]
            elif v[0] == "l":
                n.target = v[1]
        self.tree = t


FAULTY = ("open", "remove", "mkdir", "symlink", "listdir", "readlink", "copystat", "lock", "set_exec")


class MemFaults:
    """Storage errors of a memory file system, by its own callbacks."""

    def __init__(self, w, fs):
        self.w, self.fs, self.done = w, fs, []

    def install(self, paths):
        w = self.w

        def cb(path, func):
            if func.__name__ in FAULTY:
                f = w.disk.faults.consult("memory", str(path))
                if f == "stall":
                    w.sleep(30)
                elif f is not None:
                    raise disk.oserr(getattr(errno, f), str(path))
        with w.quiet():
            for p in paths:
                self.fs.uri(p)._manipulate(next_op_callback=cb)
                self.done.append(p)

    def remove(self):
        with self.w.quiet():
            for p in self.done:
                self.fs.uri(p)._manipulate(next_op_callback=None)
        self.done = []


def strip_meta(d):
    return {k: v[:2] for k, v in d.items()}


def diff(a, b, names=("is", "was")):
    out = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            def sh(v):
                if v is None:
                    return "missing"
                if v[0] == "f":
                    return "file of %d bytes %r%s" % (len(v[1]), v[1][:24], " meta %s" % (v[2:],) if len(v) > 2 else "")
                return " ".join(map(str, v))
            out.append("%s %s %s, %s %s" % (k, names[0], sh(x), names[1], sh(y)))
    return "; ".join(out[:5])


def canon(tree, path):
    """The path of the entry itself, links in its folders resolved; None if that is not possible."""
    todo = list(reversed(parts(path)))
    cur, done, links = tree.root, [], 0
    while todo:
        c = todo.pop()
        if cur is None:
            done.append(c)
            continue
        if cur.kind != "d":
            return None
        n = cur.entries.get(c)
        if n is not None and n.kind == "l" and todo:
            links += 1
            if links > 20:
                return None
            todo.extend(reversed(parts(n.target)))
            cur, done = tree.root, []
            continue
        done.append(c)
        cur = n
    return "/" + "/".join(done)


def below(path, top):
    return path == top or path.startswith(top.rstrip("/") + "/")


def outside(dump, tree, droot):
    """What of a dump is neither droot nor inside it nor a newly made folder on the way to it."""
    out = {}
    for k, v in dump.items():
        if below(k, droot):
            continue
        if below(droot, k) and v[0] == "d" and tree.maybe(k, False) is None:
            continue
        out[k] = v
    return out


# ---- the copy ----------------------------------------------------------------
def last_of(path):
    p = parts(path)
    if not p:
        raise Skip()
    return p[-1]


def copy(sf, a, df, b, rec, follow, ignore=()):
    """
    Copies on the reference. -> (droot, [(source file, destination file)]);
    raises Err, Skip or Overlap; the trees are only changed when it returns.
    """
    st, dt = sf.tree, df.tree
    if not st.exists(a):
        raise Err("ENOENT")
    src = st.node(a)
    if (src.kind == "d") != bool(rec):
        raise Err("kind")
    link = st.islink(a) and not follow
    if dt.isdir(b):
        if not parts(a) and sf.kind == "Z":
            raise Skip()
        b = b.rstrip("/") + "/" + last_of(a) if parts(a) else b
    pairs = []
    source = []         # every node that is read from
    plan = []

    if link:
        node = st.walk_to(a, False)[2]
        source.append(node)
        plan.append(("link", "", node))
    elif src.kind == "f":
        source.append(src)
        plan.append(("file", "", src, a))
    else:
        if follow and st.cyclic(a):
            raise Skip()

        def collect(n, rel, path):
            source.append(n)
            plan.append(("dir", rel, n))
            for k in sorted(n.entries):
                v = n.entries[k]
                to = v
                if v.kind == "l":
                    try:
                        to = st.node(v.target)
                    except Err:
                        to = None
                isdir = to is not None and to.kind == "d"
                if isdir and k in ignore:
                    continue
                r, p = rel + "/" + k, path + "/" + k
                if v.kind == "l" and not follow:
                    source.append(v)
                    plan.append(("link", r, v))
                elif to is None:
                    there = dt.maybe(b, False)
                    if there is not None and (there.kind == "l" or has_link(there)):
                        raise Skip()
                    raise Err("dangling")
                elif isdir:
                    collect(to, r, p)
                else:
                    source.append(to)
                    plan.append(("file", r, to, p))
        collect(src, "", a.rstrip("/"))
    ids = {id(n) for n in source}

    # would it change what it reads? (look before anything is changed)
    folder = same = False
    for step in plan:
        p = b + step[1]
        try:
            parent, _, node = dt.walk_to(p, follow=step[0] != "link")
        except Err:
            up = parts(p)
            for k in range(len(up), -1, -1):
                n = dt.maybe("/" + "/".join(up[:k]))
                if n is not None:
                    same = same or id(n) in ids
                    break
            continue
        hit = node is not None and id(node) in ids or (node is None or step[0] == "link") and parent is not None and id(parent) in ids
        same = same or hit
        folder = folder or hit and step[0] == "dir"
    if folder:
        raise Overlap()
    # links in what is there already could lead out of the destination
    top = dt.maybe(b, False)
    if top is not None and len(plan) > 1 and (top.kind == "l" or has_link(top)):
        raise Skip()
    if same:
        raise Overlap()
    if top is not None and (top.kind == "l" or has_link(top)):
        raise Skip()
    trial = dt.clone()
    if plan[0][0] == "dir":
        trial.makedirs(b)
    for step in plan:
        p = b + step[1]
        if step[0] == "dir":
            trial.makedirs(p)
        elif step[0] == "file":
            n = trial.open_w(p)
            n.data = step[2].data
            n.exe = step[2].exe
            pairs.append((step[3], p))
        else:
            if trial.isfile(p):
                parent, name, _ = trial.walk_to(p, False)
                del parent.entries[name]
            trial.symlink(step[2].target, p)
    df.tree = trial
    if sf is df:
        sf.tree = trial
    return b, pairs


def has_link(n):
    return n.kind == "d" and any(v.kind == "l" or has_link(v) for v in n.entries.values())


def droot_of(sf, a, df, b):
    if df.tree.isdir(b) and parts(a):
        return b.rstrip("/") + "/" + parts(a)[-1]
    return b


# ---- generation ----------------------------------------------------------------
NAMES = ["a", "ab", "b", "a.b"]      # some begin with another
SIZES = [0, 1, 5, 30, 4096, 8192, 8193, 20000]


def gen_tree(rng, top, n, names=None, links=True, sizes=None, tag0=0, link_tops=None):
    """entries below top, parents first"""
    names = names or NAMES
    dirs = [top]
    out = [["d", top]]
    known = [top]
    for k in range(n):
        d = rng.choice(dirs)
        p = d + "/" + rng.choice(names)
        if p in known:
            continue
        r = rng.random()
        if r < 0.35:
            out.append(["d", p])
            dirs.append(p)
        elif r < 0.8 or not links:
            out.append(["f", p, tag0 + k, rng.choice(sizes or SIZES)])
        else:
            t = rng.choice(known) if rng.random() < 0.6 else (rng.choice(link_tops or [top])) + "/" + rng.choice(names)
            out.append(["l", p, t])
        known.append(p)
    return out
