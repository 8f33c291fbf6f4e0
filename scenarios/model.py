"""The reference: a small POSIX-like tree."""
import fnmatch
import hashlib

MAXLINKS = 24


class Err(Exception):
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class Skip(Exception):
    """The operation is outside the domain on which the backends promise to agree."""


class N:
    __slots__ = ("kind", "entries", "data", "target", "exe", "ino", "time")
    count = 0

    def __init__(self, kind, data=b"", target=None):
        self.kind = kind
        self.entries = {} if kind == "d" else None
        self.data = data
        self.target = target
        self.exe = 0
        self.time = None        # where a scenario is about times

    def clone(self, memo):
        m = memo.get(id(self))
        if m is None:
            m = memo[id(self)] = N(self.kind, self.data, self.target)
            m.exe = self.exe
            m.time = self.time
            if self.entries is not None:
                for k, v in self.entries.items():
                    m.entries[k] = v.clone(memo)
        return m


def parts(path):
    return [p for p in path.split("/") if p]


class Tree:
    def __init__(self):
        self.root = N("d")

    def clone(self):
        t = Tree()
        t.root = self.root.clone({})
        return t

    # ---- resolution -------------------------------------------------------
    def walk_to(self, path, follow=True, links=0):
        """-> (parent, name, node or None); raises Err on the way"""
        steps = parts(path)
        if not steps:
            return None, "", self.root
        cur = self.root
        todo = list(reversed(steps))
        parent, name = None, ""
        self.passed = []
        while todo:
            c = todo.pop()
            self.passed.append(cur)
            if c == ".":
                continue
            if c == "..":
                raise Skip()
            if cur.kind != "d":
                if links > MAXLINKS:
                    raise Skip()
                raise Err("ENOTDIR")
            nxt = cur.entries.get(c)
            parent, name = cur, c
            if nxt is None:
                if links > MAXLINKS:
                    raise Skip()
                if todo:
                    raise Err("ENOENT")
                return parent, name, None
            if nxt.kind == "l" and (todo or follow):
                links += 1
                if links > 4 * MAXLINKS:
                    raise Err("ELOOP")
                todo.extend(reversed(parts(nxt.target)))
                cur = self.root
                if not todo:
                    if links > MAXLINKS:
                        raise Skip()
                    return None, "", self.root
                continue
            cur = nxt
        if links > MAXLINKS:
            raise Skip()        # how many are too many is up to the system
        return parent, name, cur

    def node(self, path, follow=True):
        n = self.walk_to(path, follow)[2]
        if n is None:
            raise Err("ENOENT")
        return n

    def maybe(self, path, follow=True):
        try:
            return self.walk_to(path, follow)[2]
        except Err:
            return None

    # ---- queries ------------------------------------------------------------
    def exists(self, p):
        return self.maybe(p) is not None

    def isfile(self, p):
        n = self.maybe(p)
        return n is not None and n.kind == "f"

    def isdir(self, p):
        n = self.maybe(p)
        return n is not None and n.kind == "d"

    def islink(self, p):
        n = self.maybe(p, follow=False)
        return n is not None and n.kind == "l"

    def readlink(self, p):
        n = self.node(p, follow=False)
        if n.kind != "l":
            raise Err("EINVAL")
        return n.target

    def listdir(self, p):
        n = self.node(p)
        if n.kind != "d":
            raise Err("ENOTDIR")
        return sorted(n.entries)

    def read(self, p):
        n = self.node(p)
        if n.kind == "d":
            raise Err("EISDIR")
        return n.data

    def mtime(self, p):
        self.node(p)
        return True

    def size(self, p):
        n = self.node(p)
        if n.kind != "f":
            raise Skip()
        return len(n.data)

    def md5(self, p):
        return hashlib.md5(self.read(p)).hexdigest()

    def isexec(self, p, mask):
        n = self.node(p)
        if n.kind != "f":
            raise Skip()
        return n.exe & mask != 0

    def glob(self, p, pat):
        return [x for x in self.listdir(p) if fnmatch.fnmatch(x, pat)]

    def cyclic(self, p):
        """Does following links from here come back to a folder above?"""
        seen = []

        def rec(n):
            if n in seen:
                return True
            seen.append(n)
            try:
                for k, v in n.entries.items():
                    if v.kind == "l":
                        try:
                            v = self.node(v.target)
                        except Err:
                            continue
                    if v.kind == "d" and rec(v):
                        return True
                return False
            finally:
                seen.pop()
        n = self.maybe(p)
        return n is not None and n.kind == "d" and rec(n)

    def walk(self, p, topdown, follow):
        if follow and self.cyclic(p):
            raise Skip()
        n = self.node(p)
        if n.kind != "d":
            raise Err("ENOTDIR")
        out = []

        def rec(path, rel):
            names = self.listdir(path)
            dirs = [x for x in names if self.isdir(path + "/" + x)]
            others = [x for x in names if x not in dirs]
            if topdown:
                out.append((rel, dirs, others))
            for d in dirs:
                if follow or not self.islink(path + "/" + d):
                    rec(path + "/" + d, rel + "/" + d if rel else d)
            if not topdown:
                out.append((rel, dirs, others))
        rec("/".join([""] + parts(p)) or "/", "")
        return out

    # ---- changes -------------------------------------------------------------
    def _slot(self, p, follow=False):
        parent, name, node = self.walk_to(p, follow)
        if parent is None:
            raise Skip()
        if parent.kind != "d":
            raise Err("ENOTDIR")
        return parent, name, node

    def mkdir(self, p):
        if not parts(p):
            raise Err("EEXIST")
        parent, name, node = self._slot(p)
        if node is not None:
            raise Err("EEXIST")
        parent.entries[name] = N("d")

    def makedirs(self, p):
        if self.isdir(p):
            return
        pr = parts(p)
        up = "/" + "/".join(pr[:-1])
        if not self.isdir(up):
            self.makedirs(up)
        self.mkdir(p)

    def open_w(self, p, trunc=True):
        """-> node"""
        parent, name, node = self.walk_to(p, follow=True)
        if node is not None and node.kind == "d":
            raise Err("EISDIR")
        if node is None:
            if parent.kind != "d":
                raise Err("ENOTDIR")
            node = parent.entries[name] = N("f")
        elif trunc:
            node.data = b""
        return node

    def write(self, p, data):
        self.open_w(p).data = data

    def append(self, p, data):
        n = self.open_w(p, trunc=False)
        n.data = n.data + data

    def symlink(self, target, p):
        if not parts(p):
            raise Err("EEXIST")
        parent, name, node = self._slot(p)
        if node is not None:
            raise Err("EEXIST")
        parent.entries[name] = N("l", target="/" + "/".join(parts(target)))

    def remove(self, p, rec):
        if not parts(p):
            raise Skip()
        if self.islink(p):
            parent, name, node = self.walk_to(p, follow=False)
            del parent.entries[name]
            return
        if not self.exists(p):
            raise Err("ENOENT")
        parent, name, node = self.walk_to(p, follow=False)
        if node.kind == "d" and node.entries and not rec:
            raise Err("ENOTEMPTY")
        if node in self.passed:
            raise Skip()        # the path leads through the folder itself, by a link in it
        del parent.entries[name]

    def set_exec(self, p, bits):
        n = self.node(p)
        if n.kind != "f":
            raise Skip()
        n.exe = bits

    def copystat(self, a, b):
        n, m = self.node(a), self.node(b)
        if n.kind != "f" or m.kind != "f":
            raise Skip()
        m.exe = n.exe

    def _inside(self, top, node):
        if top is node:
            return True
        return top.kind == "d" and any(self._inside(v, node) for v in top.entries.values())

    def copy(self, a, b, rec, follow):
        if not self.exists(a):
            raise Err("ENOENT")
        src = self.node(a)
        if (src.kind == "d") != bool(rec):
            raise Err("AssertionError")
        last = parts(a)[-1] if parts(a) else None
        if last is None:
            raise Skip()
        if self.islink(a):
            raise Skip()
        if self.isdir(b):
            b = b.rstrip("/") + "/" + last
        if self.islink(b):
            raise Skip()
        dst = self.maybe(b)
        bparent = self.walk_to(b, False)[0] if not rec else None
        if src.kind == "f":
            if dst is src:
                raise Skip()
            if dst is not None and dst.kind == "d":
                raise Err("EISDIR")
            n = self.open_w(b)
            n.data = src.data
            n.exe = src.exe
            return
        # into itself?
        up = parts(b)
        for k in range(len(up), -1, -1):
            n = self.maybe("/" + "/".join(up[:k]))
            if n is not None:
                if n in self._reach(src, []):
                    raise Skip()
                break
        if self.cyclic(a) and follow:
            raise Skip()
        if dst is not None:
            if dst.kind == "f":
                raise Err("EEXIST")
            raise Skip()
        if follow and self._has_dangling(src):
            raise Skip()
        self.makedirs(b)
        dst = self.node(b)
        self._copy_into(src, dst, follow)

    def _reach(self, n, seen):
        """Everything reachable from n, links followed."""
        if n in seen:
            return seen
        seen.append(n)
        if n.kind == "d":
            for v in n.entries.values():
                if v.kind == "l":
                    try:
                        v = self.node(v.target)
                    except Err:
                        continue
                self._reach(v, seen)
        return seen

    def _has_dangling(self, n):
        for v in n.entries.values():
            if v.kind == "l":
                try:
                    v = self.node(v.target)
                except Err:
                    return True
            if v.kind == "d" and self._has_dangling(v):
                return True
        return False

    def _copy_into(self, src, dst, follow):
        for k, v in src.entries.items():
            if v.kind == "l" and follow:
                v = self.node(v.target)
            if v.kind == "l":
                dst.entries[k] = N("l", target=v.target)
            elif v.kind == "f":
                n = dst.entries[k] = N("f", v.data)
                n.exe = v.exe
            else:
                d = dst.entries[k] = N("d")
                self._copy_into(v, d, follow)

    def move(self, a, b):
        if self.islink(a) or not self.exists(a) or not parts(a):
            raise Skip()
        src = self.node(a)
        if src.kind == "d" and self._has_link(src):
            raise Skip()
        if self.isdir(b):
            b = b.rstrip("/") + "/" + parts(a)[-1]
        if self.islink(b):
            raise Skip()
        if self.maybe(b) is not None:
            raise Skip()
        up = parts(b)[:-1]
        for k in range(len(up), -1, -1):
            n = self.maybe("/" + "/".join(up[:k]))
            if n is not None:
                if n.kind != "d" or self._inside(src, n) or (k < len(up) and self.maybe("/" + "/".join(up[:k + 1]), False)):
                    raise Skip()
                break
        if src.kind == "d":
            self.makedirs("/" + "/".join(up))
        if self.walk_to(b, False)[0].kind != "d":
            raise Err("ENOTDIR")
        ap, an, _ = self.walk_to(a, False)
        bp, bn, _ = self.walk_to(b, False)
        del ap.entries[an]
        bp.entries[bn] = src

    def _has_link(self, n):
        return any(v.kind == "l" or (v.kind == "d" and self._has_link(v)) for v in n.entries.values())

    # ---- whole ----------------------------------------------------------------
    def dump(self):
        out = {}

        def rec(n, rel):
            for k in sorted(n.entries):
                v = n.entries[k]
                p = rel + "/" + k if rel else k
                if v.kind == "d":
                    out[p] = ("d",)
                    rec(v, p)
                elif v.kind == "f":
                    out[p] = ("f", v.data)
                else:
                    out[p] = ("l", v.target)
        rec(self.root, "")
        return out
