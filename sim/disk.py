"""Simulated POSIX disk and the os/io/fcntl seam through which the code under
test reaches it.

Everything under /simdisk (and every relative path while a run is active) lives
here, in memory; nothing is ever written to the real file system by the code
under test: calls that would change something outside /simdisk are recorded in
`escapes` and refused.
"""
import builtins
import errno
import fcntl
import io
import os
import shutil
import stat as st_mod
import sys

from . import core

ROOT = "/simdisk"
FD_BASE = 1000000

E = errno


def oserr(code, *paths):
    if len(paths) == 2:
        return OSError(code, os.strerror(code), paths[0], None, paths[1])
    return OSError(code, os.strerror(code), *paths)


class Inode:
    __slots__ = ("kind", "ino", "dev", "mode", "mtime", "atime", "ctime", "data", "entries",
                 "target", "nlink", "flock", "flock_waiters")

    def __init__(self, kind, ino, dev, now):
        self.kind = kind
        self.ino = ino
        self.dev = dev
        self.mode = {"f": 0o644, "d": 0o755, "l": 0o777}[kind]
        self.mtime = self.atime = self.ctime = now
        self.data = bytearray() if kind == "f" else None
        self.entries = {} if kind == "d" else None
        self.target = None
        self.nlink = 1
        self.flock = {}         # description -> exclusive?
        self.flock_waiters = []


class Description:
    """What descriptors made by dup() share."""
    __slots__ = ("pos", "fds")

    def __init__(self):
        self.pos, self.fds = 0, 0


class OpenFile:
    __slots__ = ("inode", "desc", "readable", "writable", "append", "fd", "path", "closed", "raw")

    def __init__(self, inode, readable, writable, append, fd, path, desc=None):
        self.inode, self.readable, self.writable, self.append = inode, readable, writable, append
        self.desc = desc or Description()
        self.desc.fds += 1
        self.fd, self.path = fd, path
        self.closed = False

    @property
    def pos(self):
        return self.desc.pos

    @pos.setter
    def pos(self, pos):
        self.desc.pos = pos


class Faults:
    """Which faults may fire, and the record of those that did."""

    MENU = {
        "open": ["EIO", "EMFILE", "EACCES"],
        "open-create": ["EIO", "ENOSPC", "EMFILE"],
        "read": ["EIO", "short", "stall"],
        "write": ["EIO", "ENOSPC", "short", "torn", "stall"],
        "close": ["EIO"],
        "truncate": ["EIO"],
        "listdir": ["EIO", "EMFILE", "stall"],
        "mkdir": ["EIO", "ENOSPC", "EACCES"],
        "unlink": ["EIO", "EACCES", "stall"],
        "rmdir": ["EIO", "EACCES", "EBUSY"],
        "rename": ["EIO", "EACCES"],
        "symlink": ["EIO", "ENOSPC"],
        "readlink": ["EIO"],
        "chmod": ["EIO", "EPERM"],
        "utime": ["EIO", "EPERM"],
        "chdir": ["EIO", "EACCES"],
        "flock": ["EIO"],
        "memory": ["EIO", "EACCES", "ENOSPC"],
    }

    def __init__(self, sim):
        self.sim = sim
        self.armed = False
        self.p = 0.0
        self.max = 0
        self.kinds = None        # restrict to these kinds, None = all
        self.ops = None          # restrict to these seam calls
        self.sticky = False      # once fired, the same call keeps failing until healed
        self.broken = None
        self.crash_p = 0.0
        self.short_p = 0.0
        self.alloc_p = 0.0
        self.fired = []
        self.by = []             # which task met it
        self.hard = 0            # faults fired that report an error (not short/stall)
        self.calls = 0

    def consult(self, op, path):
        """Returns None or the name of the fault to inject at this call."""
        if not self.armed:
            return None
        self.calls += 1
        if self.crash_p:
            v = self.sim.choices.pick("crash", lambda g: 1 if g.random() < self.crash_p else 0)
            if v:
                self.note((op, "crash"))
                self.sim.count("fault:crash@" + op)
                self.sim.log("FAULT", op, path, "crash")
                return "crash"
        if self.broken == op:
            self.sim.count("fault:sticky@" + op)
            self.note((op, "EIO"))
            self.hard += 1
            return "EIO"
        if op in ("read", "write") and self.short_p:
            v = self.sim.choices.pick("short", lambda g: 1 if g.random() < self.short_p else 0)
            if v:
                self.sim.count("fault:short@" + op)
                self.sim.log("FAULT", op, path, "short")
                return "short"
        if not self.p or len(self.fired) >= self.max:
            return None
        if self.ops is not None and op not in self.ops:
            return None
        menu = self.MENU.get(op, ["EIO"])
        n = len(menu)
        v = self.sim.choices.pick("fault", lambda g: 1 + g.randrange(n) if g.random() < self.p else 0)
        if not v:
            return None
        kind = menu[(v - 1) % n]
        if self.kinds is not None and kind not in self.kinds:
            return None
        self.note((op, kind))
        if kind not in ("short", "stall"):
            self.hard += 1
            if self.sticky:
                self.broken = op
        self.sim.count("fault:%s@%s" % (kind, op))
        self.sim.log("FAULT", op, path, kind)
        return kind

    def note(self, what):
        self.fired.append(what)
        self.by.append(self.sim.current.id if self.sim.current is not None else None)

    def mine(self):
        """How many reported faults the current task met."""
        me = self.sim.current.id
        return sum(1 for f, b in zip(self.fired, self.by) if b == me and f[1] not in ("short", "stall", "crash"))

    def heal(self):
        self.armed = False
        self.broken = None


class Disk:
    def __init__(self, sim):
        self.sim = sim
        self.ino = 100
        self.devs = 1
        self.root = self.new("d", 1)
        self.cwd = ROOT
        self.cwd_inode = None
        self.fds = {}
        self.next_fd = FD_BASE
        self.faults = Faults(sim)
        self.escapes = []
        self.unclosed = []        # files dropped without close()
        self.calls = 0
        self.capacity = {}        # dev -> max bytes, absent = unlimited
        self.shuffle_listing = False
        self.allow_real_writes = False
        self.watch = None         # called at every system call (oracle)

    # ---- inodes ----------------------------------------------------------
    def now(self):
        return self.sim.wall()

    def new(self, kind, dev):
        self.ino += 1
        return Inode(kind, self.ino, dev, self.now())

    def mount(self, name):
        """A directory directly below the root that is a device of its own."""
        self.devs += 1
        d = self.new("d", self.devs)
        self.root.entries[name] = d
        return ROOT + "/" + name

    def used(self, dev):
        seen, total = set(), 0
        stack = [self.root]
        while stack:
            n = stack.pop()
            if n.ino in seen:
                continue
            seen.add(n.ino)
            if n.kind == "f" and n.dev == dev:
                total += len(n.data)
            elif n.kind == "d":
                stack.extend(n.entries.values())
        return total

    def absolute(self, path):
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        return path

    def resolve(self, path, follow=True):
        """-> (parent inode, last name, inode or None)"""
        if path == "":
            raise oserr(E.ENOENT, path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        orig = path
        path = self.absolute(path)
        must_dir = path.endswith(("/", "/."))
        todo = [c for c in path.split("/") if c and c != "."]
        todo.reverse()
        links = 0
        stack = []      # inodes from the (real) root; None stands for "/"
        cur = None
        names = []
        parent, last = None, ""
        while todo:
            c = todo.pop()
            is_last = not todo
            if c == "..":
                if stack:
                    cur = stack.pop()
                    last = names.pop() if names else ""
                parent = stack[-1] if stack else None
                continue
            if len(c) > 255:
                raise oserr(E.ENAMETOOLONG, orig)
            if cur is None:
                if c != ROOT[1:]:
                    self.escapes.append(orig)
                    raise oserr(E.EACCES, orig)
                nxt = self.root
            else:
                if cur.kind != "d":
                    raise oserr(E.ENOTDIR, orig)
                nxt = cur.entries.get(c)
            if nxt is None:
                if is_last and not path.endswith("/."):
                    return cur, c, None
                raise oserr(E.ENOENT, orig)
            if nxt.kind == "l" and (not is_last or follow or must_dir):
                links += 1
                if links > 40:
                    raise oserr(E.ELOOP, orig)
                t = nxt.target
                comps = [x for x in t.split("/") if x and x != "."]
                comps.reverse()
                todo.extend(comps)
                if t.startswith("/"):
                    stack, names, cur = [], [], None
                if not todo and cur is None:
                    self.escapes.append(orig)
                    raise oserr(E.EACCES, orig)
                if t.endswith("/") and is_last:
                    must_dir = True
                continue
            stack.append(cur)
            names.append(c)
            parent, last = cur, c
            cur = nxt
        if cur is None:
            self.escapes.append(orig)
            raise oserr(E.EACCES, orig)
        if must_dir and cur.kind not in ("d", "l"):
            raise oserr(E.ENOTDIR, orig)
        return parent, last, cur

    def get(self, path, follow=True):
        p, n, i = self.resolve(path, follow)
        if i is None:
            raise oserr(E.ENOENT, path)
        return i

    # ---- the seam --------------------------------------------------------
    def syscall(self, op, path=""):
        """Common entry of every simulated system call."""
        self.calls += 1
        s = core._sim()
        if s is None:
            return None
        s.log("sys", op, path)
        s.yield_point("sys:" + op)
        if self.watch is not None:
            watch, self.watch = self.watch, None
            try:
                watch(op, path)
            finally:
                self.watch = watch
        f = self.faults.consult(op, path)
        if f is None:
            return None
        if f == "crash":
            if op == "write":
                return "crash"      # the caller applies part of the data first
            s.crash()
        if f == "stall":
            s.sleep(30.0)
            return None
        if f in ("short", "torn"):
            return f
        raise oserr(getattr(errno, f), path)

    # ---- oracle side: no seam, no faults ----------------------------------
    def tree(self, path, meta=False):
        """Dump of everything at and below path: {relpath: (kind, payload...)}"""
        out = {}
        try:
            node = self.get(path, follow=False)
        except OSError:
            return out

        def rec(n, rel):
            if n.kind == "d":
                out[rel] = ("d",)
                for name in sorted(n.entries):
                    rec(n.entries[name], (rel + "/" if rel else "") + name)
            elif n.kind == "f":
                out[rel] = ("f", bytes(n.data)) + ((n.mode & 0o7777, n.mtime) if meta else ())
            else:
                out[rel] = ("l", n.target)
        rec(node, "")
        return out

    def put_file(self, path, data, mode=0o644):
        p, n, i = self.resolve(path)
        if i is None:
            i = p.entries[n] = self.new("f", p.dev)
        i.data = bytearray(data)
        i.mode = mode
        return i

    def put_dir(self, path):
        p, n, i = self.resolve(path)
        if i is None:
            p.entries[n] = self.new("d", p.dev)

    def put_link(self, path, target):
        p, n, i = self.resolve(path, follow=False)
        i = p.entries[n] = self.new("l", p.dev)
        i.target = target

    def open_count(self):
        return len(self.fds)

    def power_cut(self):
        """The process is gone: its descriptors and locks with it."""
        for of in list(self.fds.values()):
            of.closed = True
            of.inode.flock = {}
        self.fds = {}

    # ---- file descriptors -------------------------------------------------
    def open_fd(self, path, flags, mode=0o777):
        acc = flags & os.O_ACCMODE
        writable = acc in (os.O_WRONLY, os.O_RDWR)
        readable = acc in (os.O_RDONLY, os.O_RDWR)
        creat = bool(flags & os.O_CREAT)
        try:
            exists = self.resolve(path)[2] is not None
        except OSError:
            exists = True
        self.syscall("open-create" if creat and not exists else "open", path)
        if creat and path.endswith("/"):
            self.resolve(path.rstrip("/"), follow=False)
            raise oserr(E.EISDIR, path)
        if creat and flags & os.O_EXCL:
            p, n, i = self.resolve(path, follow=False)
            if i is not None:
                raise oserr(E.EEXIST, path)
        p, n, i = self.resolve(path, follow=not flags & os.O_NOFOLLOW)
        if i is None:
            if not creat:
                raise oserr(E.ENOENT, path)
            if p is None or path.endswith("/"):
                raise oserr(E.EISDIR, path)
            if p.nlink == 0:
                raise oserr(E.ENOENT, path)
            i = p.entries[n] = self.new("f", p.dev)
            i.mode = mode & 0o644 if mode & 0o111 == 0 or mode == 0o777 else mode & 0o755
            p.mtime = self.now()
        elif i.kind == "l":
            raise oserr(E.ELOOP, path)
        elif i.kind == "d" and (writable or creat):
            raise oserr(E.EISDIR, path)
        elif i.kind == "f" and flags & os.O_DIRECTORY:
            raise oserr(E.ENOTDIR, path)
        elif flags & os.O_TRUNC and writable:
            if i.data:
                i.data = bytearray() if False else i.data
                del i.data[:]
            i.mtime = self.now()
        fd = self.next_fd
        self.next_fd += 1
        of = OpenFile(i, readable, writable, bool(flags & os.O_APPEND), fd, path)
        self.fds[fd] = of
        return of

    def fd(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise oserr(E.EBADF)
        return of

    def close_fd(self, fd):
        of = self.fd(fd)
        err = None
        try:
            self.syscall("close", of.path)
        except OSError as e:
            err = e
        # the descriptor is gone even when close reports an error
        self.fds.pop(fd, None)
        of.closed = True
        of.desc.fds -= 1
        if not of.desc.fds:
            self._unflock(of)
        if err is not None:
            raise err

    def read_fd(self, fd, n):
        of = self.fd(fd)
        if not of.readable:
            raise oserr(E.EBADF)
        f = self.syscall("read", of.path)
        if of.inode.kind == "d":
            raise oserr(E.EISDIR)
        if f == "short" and n > 1:
            n = 1 + (n * 7 + of.pos * 3) % (n - 1)
        d = bytes(of.inode.data[of.pos:of.pos + n])
        of.pos += len(d)
        return d

    def write_fd(self, fd, data):
        of = self.fd(fd)
        if not of.writable:
            raise oserr(E.EBADF)
        data = bytes(data)
        f = self.syscall("write", of.path)
        if of.append and data:
            of.pos = len(of.inode.data)
        n = len(data)
        fail = None
        if f == "short" and n > 1:
            n = 1 + (n * 5) % (n - 1)
        elif f == "torn":
            n, fail = n // 2, E.EIO
        elif f == "crash":
            n = n // 2
        cap = self.capacity.get(of.inode.dev)
        if cap is not None and n:
            grow = max(0, of.pos + n - len(of.inode.data))
            room = max(0, cap - self.used(of.inode.dev))
            if grow > room:
                n -= grow - room
                self.sim.count("fault:diskfull@write")
                if n <= 0:
                    self.faults.hard += 1
                    self.faults.note(("write", "ENOSPC"))
                    raise oserr(E.ENOSPC)
        if n:
            buf = of.inode.data
            if of.pos > len(buf):
                buf.extend(b"\0" * (of.pos - len(buf)))
            buf[of.pos:of.pos + n] = data[:n]
            of.pos += n
            of.inode.mtime = self.now()
        if f == "crash":
            self.sim.crash()
        if fail:
            raise oserr(fail)
        return n

    def seek_fd(self, fd, pos, whence):
        of = self.fd(fd)
        if whence == 1:
            pos += of.pos
        elif whence == 2:
            pos += len(of.inode.data)
        if pos < 0:
            raise oserr(E.EINVAL)
        of.pos = pos
        return pos

    def truncate_fd(self, fd, size):
        of = self.fd(fd)
        if not of.writable:
            raise oserr(E.EINVAL)
        self.syscall("truncate", of.path)
        self._truncate(of.inode, size)

    def _truncate(self, inode, size):
        if inode.kind != "f":
            raise oserr(E.EISDIR if inode.kind == "d" else E.EINVAL)
        if size < len(inode.data):
            del inode.data[size:]
        else:
            inode.data.extend(b"\0" * (size - len(inode.data)))
        inode.mtime = self.now()

    # ---- locks -------------------------------------------------------------
    def flock(self, fd, op):
        of = self.fd(fd)
        i = of.inode
        if op & fcntl.LOCK_UN:
            self._unflock(of)
            return
        self.syscall("flock", of.path)
        alone = bool(op & fcntl.LOCK_EX)
        if i.flock.get(of.desc, alone) != alone:
            # changing the kind gives up the lock first
            self._unflock(of)
        while any(d is not of.desc and (alone or ex) for d, ex in i.flock.items()):
            if op & fcntl.LOCK_NB:
                raise oserr(E.EWOULDBLOCK)
            s = core._sim()
            if s is None:
                raise RuntimeError("real deadlock on flock outside the simulation")
            s.count("lock_waits")
            i.flock_waiters.append(s.current)
            s.block("flock")
        i.flock[of.desc] = alone
        if not alone:
            self._wake_flock(i)

    def _unflock(self, of):
        if of.inode.flock.pop(of.desc, None) is not None:
            self._wake_flock(of.inode)

    def _wake_flock(self, i):
        for t in i.flock_waiters:
            self.sim._wake(t)
        i.flock_waiters = []

    def lockf(self, fd, op):
        """Locks of the process (all threads are the same one)."""
        of = self.fd(fd)
        if op & fcntl.LOCK_UN:
            return
        self.syscall("flock", of.path)
        if not (of.writable if op & fcntl.LOCK_EX else of.readable):
            raise oserr(E.EBADF)

    def dup_fd(self, fd, to=None):
        of = self.fd(fd)
        if to is None:
            to = self.next_fd
            self.next_fd += 1
        elif to == fd:
            return to
        elif to in self.fds:
            self.close_fd(to)
        self.fds[to] = OpenFile(of.inode, of.readable, of.writable, of.append, to, of.path, of.desc)
        return to

    def at(self, fd, n, offset, call):
        """pread, pwrite"""
        of = self.fd(fd)
        save, of.pos = of.pos, offset
        try:
            return call(fd, n)
        finally:
            of.pos = save

    # ---- name space ---------------------------------------------------------
    def mkdir(self, path, mode=0o777):
        self.syscall("mkdir", path)
        p, n, i = self.resolve(path.rstrip("/"), follow=False)
        if i is not None:
            raise oserr(E.EEXIST, path)
        if p is None:
            raise oserr(E.EACCES, path)
        if p.nlink == 0:
            raise oserr(E.ENOENT, path)
        d = p.entries[n] = self.new("d", p.dev)
        d.mode = mode & 0o755
        p.mtime = self.now()

    def rmdir(self, path):
        self.syscall("rmdir", path)
        p, n, i = self.resolve(path, follow=False)
        if i is None:
            raise oserr(E.ENOENT, path)
        if i.kind != "d":
            raise oserr(E.ENOTDIR, path)
        if p is None or i.dev != p.dev:
            raise oserr(E.EBUSY, path)
        if i.entries:
            raise oserr(E.ENOTEMPTY, path)
        del p.entries[n]
        i.nlink = 0
        p.mtime = self.now()

    def unlink(self, path):
        self.syscall("unlink", path)
        p, n, i = self.resolve(path, follow=False)
        if i is None:
            raise oserr(E.ENOENT, path)
        if path.endswith("/") and i.kind != "d":
            raise oserr(E.ENOTDIR, path)
        if i.kind == "d":
            raise oserr(E.EISDIR, path)
        del p.entries[n]
        i.nlink -= 1
        p.mtime = self.now()

    def rename(self, a, b):
        self.syscall("rename", "%s -> %s" % (a, b))
        ap, an, ai = self.resolve(a, follow=False)
        bp, bn, bi = self.resolve(b, follow=False)
        if ai is None:
            raise oserr(E.ENOENT, a, b)
        if ap is None or bp is None or ai.dev != bp.dev or (ap.dev != ai.dev):
            raise oserr(E.EXDEV, a, b)
        if ai.kind != "d" and b.endswith("/"):
            raise oserr(E.ENOTDIR, a, b)
        if ai is bi:
            return
        if ai.kind == "d":
            # into itself?
            n = bp
            if self._below(ai, bp):
                raise oserr(E.EINVAL, a, b)
            if bi is not None:
                if bi.kind != "d":
                    raise oserr(E.ENOTDIR, a, b)
                if bi.entries:
                    raise oserr(E.ENOTEMPTY, a, b)
        elif bi is not None and bi.kind == "d":
            raise oserr(E.ENOTEMPTY if self._below(bi, ap) else E.EISDIR, a, b)
        if bi is not None:
            bi.nlink -= 1
        del ap.entries[an]
        bp.entries[bn] = ai
        ap.mtime = bp.mtime = self.now()

    def _below(self, top, node):
        stack = [top]
        while stack:
            x = stack.pop()
            if x is node:
                return True
            if x.kind == "d":
                stack.extend(x.entries.values())
        return False

    def symlink(self, target, path):
        self.syscall("symlink", path)
        if target == "":
            raise oserr(E.ENOENT, target, path)
        p, n, i = self.resolve(path, follow=False)
        if i is not None:
            raise oserr(E.EEXIST, target, path)
        if path.endswith("/"):
            raise oserr(E.ENOENT, target, path)
        if p.nlink == 0:
            raise oserr(E.ENOENT, path)
        l = p.entries[n] = self.new("l", p.dev)
        l.target = target
        p.mtime = self.now()

    def link(self, a, b):
        self.syscall("link", b)
        ai = self.get(a, follow=False)
        p, n, i = self.resolve(b, follow=False)
        if i is not None:
            raise oserr(E.EEXIST, a, b)
        if b.endswith("/"):
            raise oserr(E.ENOENT, a, b)
        if ai.kind == "d":
            raise oserr(E.EPERM, a, b)
        if ai.dev != p.dev:
            raise oserr(E.EXDEV, a, b)
        p.entries[n] = ai
        ai.nlink += 1

    def readlink(self, path):
        self.syscall("readlink", path)
        i = self.get(path, follow=False)
        if i.kind != "l":
            raise oserr(E.EINVAL, path)
        return i.target

    def listdir(self, path):
        at = self.fd(path) if isinstance(path, int) else None
        self.syscall("listdir", at.path if at else path)
        i = at.inode if at else self.get(path)
        if i.kind != "d":
            raise oserr(E.ENOTDIR, path)
        names = list(i.entries)
        if self.shuffle_listing and len(names) > 1:
            k = len(names)
            v = self.sim.choices.pick("order", lambda g: g.randrange(k * 2))
            if v:
                names = names[v % k:] + names[:v % k]
                if v >= k:
                    names.reverse()
        return names

    def stat(self, path, follow=True):
        s = core._sim()
        self.calls += 1
        if s is not None:
            s.yield_point("sys:stat")
        return self._stat(self.get(path, follow))

    def _stat(self, i):
        fmt = {"f": st_mod.S_IFREG, "d": st_mod.S_IFDIR, "l": st_mod.S_IFLNK}[i.kind]
        size = len(i.data) if i.kind == "f" else (len(i.target) if i.kind == "l" else 4096)

        def ns(t):
            return int(round(t * 1e6)) * 1000
        return os.stat_result((fmt | i.mode, i.ino, i.dev, max(i.nlink, 0), 0, 0, size,
                               int(i.atime), int(i.mtime), int(i.ctime),
                               i.atime, i.mtime, i.ctime, ns(i.atime), ns(i.mtime), ns(i.ctime)))

    def chmod(self, path, mode, follow=True):
        self.syscall("chmod", path)
        i = self.get(path, follow)
        if i.kind == "l":
            raise oserr(E.EOPNOTSUPP, path)
        i.mode = mode & 0o7777
        i.ctime = self.now()

    def utime(self, path, times=None, ns=None, follow=True):
        self.syscall("utime", path)
        i = self.get(path, follow)
        if ns is not None:
            a, m = ns[0] / 1e9, ns[1] / 1e9
        elif times is not None:
            a, m = times
        else:
            a = m = self.now()
        i.atime, i.mtime = a, m

    def chdir(self, path):
        self.syscall("chdir", path)
        i = self.get(path)
        if i.kind != "d":
            raise oserr(E.ENOTDIR, path)
        self.cwd = self.realname(path)
        self.cwd_inode = i

    def getcwd(self):
        if self.cwd_inode is not None:
            at = self.realname_of(self.cwd_inode)
            if at is None:
                raise oserr(E.ENOENT)     # it has been removed
            return at
        return self.cwd

    def realname(self, path):
        """Canonical name of an existing directory."""
        return self.realname_of(self.get(path))

    def realname_of(self, want):
        def find(n, name):
            if n is want:
                return name
            if n.kind == "d":
                for k in sorted(n.entries):
                    r = find(n.entries[k], name + "/" + k)
                    if r:
                        return r
            return None
        return find(self.root, ROOT)


# --------------------------------------------------------------------------
DISK = None     # the active disk, if any


def active():
    return DISK


def is_virtual(path):
    if DISK is None:
        return False
    if isinstance(path, int):
        return path >= FD_BASE
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if path.startswith("/"):
        return path == ROOT or path.startswith(ROOT + "/")
    return True


def at(path, dir_fd):
    """what path means with that dir_fd"""
    if DISK is not None and isinstance(dir_fd, int) and dir_fd >= FD_BASE and not isinstance(path, int):
        p = os.path.join(DISK.fd(dir_fd).path, text(path))
        return os.fsencode(p) if isinstance(os.fspath(path), bytes) else p
    return path


def text(path):
    path = os.fspath(path)
    return os.fsdecode(path) if isinstance(path, bytes) else path


class SimRaw(io.RawIOBase):
    def __init__(self, of, name, closefd=True, mode="rb"):
        self._of = of
        self.name = name
        self.mode = mode
        self._closefd = closefd
        self._disk = DISK

    def _dealloc_warn(self, source):
        """Called by the io layers when a file was dropped without being closed
        (what makes CPython emit ResourceWarning)."""
        self._disk.unclosed.append(self._of.path)

    def readable(self):
        return self._of.readable

    def writable(self):
        return self._of.writable

    def seekable(self):
        self._ck()
        return True

    def _ck(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def fileno(self):
        self._ck()
        return self._of.fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._ck()
        if not self._of.readable:
            raise io.UnsupportedOperation("File not open for reading")
        d = self._disk.read_fd(self._of.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = []
        while True:
            d = self.read(65536)
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        self._ck()
        if not self._of.writable:
            raise io.UnsupportedOperation("File not open for writing")
        return self._disk.write_fd(self._of.fd, b)

    def seek(self, pos, whence=0):
        self._ck()
        return self._disk.seek_fd(self._of.fd, pos, whence)

    def tell(self):
        self._ck()
        return self._of.pos

    def truncate(self, size=None):
        self._ck()
        if not self._of.writable:
            raise io.UnsupportedOperation("File not open for writing")
        if size is None:
            size = self._of.pos
        self._disk.truncate_fd(self._of.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and not self._of.closed and self._of.fd in self._disk.fds:
                self._disk.close_fd(self._of.fd)


class _Turn:
    """Stands in front of the lock inside a C buffer object: a simulated thread
    that finds it taken waits in the simulator, where it can be seen."""

    def __init__(self):
        self.owner, self.depth, self.waiters = None, 0, []

    def __enter__(self):
        s = core.SIM
        me = s.current if s is not None and s.in_task() else None
        if me is None:
            return
        while self.owner is not None and self.owner is not me:
            self.waiters.append(me)
            s.block("buffer")
        self.owner = me
        self.depth += 1

    def __exit__(self, *a):
        s = core.SIM
        if self.depth and s is not None and s.current is self.owner:
            self.depth -= 1
            if not self.depth:
                self.owner = None
                for t in self.waiters:
                    s._wake(t)
                self.waiters = []


def _in_turn(cls):
    out = {}

    def wrap(name, base):
        def f(self, *a, **k):
            with self._turn:
                return base(self, *a, **k)
        f.__name__ = name
        return f
    for n in ("read", "read1", "readinto", "readinto1", "peek", "readline", "readlines", "__next__", "write", "writelines", "flush",
              "seek", "tell", "truncate", "close"):
        if hasattr(cls, n):
            out[n] = wrap(n, getattr(cls, n))

    def init(self, *a, **k):
        self._turn = _Turn()
        cls.__init__(self, *a, **k)
    out["__init__"] = init
    return type("Sim" + cls.__name__, (cls,), out)


SimBufferedReader, SimBufferedWriter, SimBufferedRandom = map(_in_turn, (io.BufferedReader, io.BufferedWriter, io.BufferedRandom))


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not isinstance(mode, str):
        raise TypeError("open() argument 'mode' must be str")
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, is_text, binary = "+" in modes, "t" in modes, "b" in modes
    if is_text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    d = DISK
    if isinstance(file, int):
        of = d.fd(file)
        name = file
        if reading and not of.readable and not updating:
            pass
    else:
        path = name = text(file)
        flags = os.O_CLOEXEC
        if reading:
            flags |= 0 if not updating else os.O_RDWR
        else:
            flags |= os.O_RDWR if updating else os.O_WRONLY
            flags |= os.O_CREAT
            if writing:
                flags |= os.O_TRUNC
            elif appending:
                flags |= os.O_APPEND
            elif creating:
                flags |= os.O_EXCL
        if opener is not None:
            of = d.fd(opener(file, flags))
        else:
            of = d.open_fd(path, flags, 0o666)
        if of.inode.kind == "d":
            d.fds.pop(of.fd, None)
            raise oserr(E.EISDIR, path)
        if appending:
            of.pos = len(of.inode.data)
    rawmode = ("r" if reading else "w" if writing else "a" if appending else "x") + "b" + ("+" if updating else "")
    raw = SimRaw(of, name, closefd, rawmode)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if updating:
        buf = SimBufferedRandom(raw, size)
    elif reading:
        buf = SimBufferedReader(raw, size)
    else:
        buf = SimBufferedWriter(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    t.mode = mode
    return t


class SimDirEntry:
    def __init__(self, d, base, name):
        self._d = d
        self.name = name
        self.path = (base + "/" + name) if not base.endswith("/") else base + name
        if base in ("", None):
            self.path = name
        try:
            self._type = d.get(self.path, False).kind       # as the real one: the listing knows it
        except OSError:
            self._type = None

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._d._stat(self._d.get(self.path, False)).st_ino

    def _kind(self, follow):
        if self._type != "l" or not follow:
            return self._type
        try:
            return self._d.get(self.path).kind
        except FileNotFoundError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "d"

    def is_file(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "f"

    def is_symlink(self):
        return self._kind(False) == "l"

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._d.stat(self.path, follow_symlinks)


class SimScandir:
    """Open until it is exhausted, closed or fails."""

    def __init__(self, d, path, entries):
        self._d = d
        self._e = iter(entries)
        fd = d.next_fd
        d.next_fd += 1
        self._of = d.fds[fd] = OpenFile(d.get(path), False, False, False, fd, path)

    def __iter__(self):
        return self

    def __next__(self):
        if self._of.closed:
            raise StopIteration
        try:
            self._d.syscall("readdir", self._of.path)
            return next(self._e)
        except BaseException:
            self.close()
            raise

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self._of.closed:
            self._of.closed = True
            self._d.fds.pop(self._of.fd, None)

    def __del__(self):
        if not self._of.closed:
            self._d.unclosed.append(self._of.path)
            self.close()


def _readv(d, fd, bufs):
    n = 0
    for b in bufs:
        got = d.read_fd(fd, len(b))
        b[:len(got)] = got
        n += len(got)
        if len(got) < len(b):
            break
    return n


REAL = {}


def _refuse(name, path):
    DISK.escapes.append("%s %s" % (name, path))
    raise oserr(E.EACCES, str(path))


def install():
    """Put the seam in place; must run before abl is imported.  Without an
    active disk every function passes through to the real one."""
    g = {}

    def keep(mod, name):
        REAL[mod.__name__ + "." + name] = getattr(mod, name)
        return getattr(mod, name)

    def put(mod, name, fn):
        real = getattr(mod, name)
        try:
            fn.__name__ = name
        except AttributeError:
            pass
        setattr(mod, name, fn)
        for s in ("supports_follow_symlinks", "supports_fd", "supports_effective_ids"):
            group = getattr(os, s)
            if real in group:
                group.add(fn)

    def guard_mut(name, path):
        """A mutating call on a path that is not on the simulated disk."""
        if DISK is not None and core.SIM is not None and core.SIM.in_task() and not DISK.allow_real_writes:
            _refuse(name, path)

    def one(name, method, mut=True, conv=None):
        real = keep(os, name)

        def f(path, *a, **k):
            path = at(path, k.get("dir_fd"))
            if is_virtual(path):
                k.pop("dir_fd", None)
                return method(DISK, text(path) if not isinstance(path, int) else path, *a, **k)
            if mut:
                guard_mut(name, path)
            return real(path, *a, **k)
        put(os, name, f)

    one("mkdir", lambda d, p, mode=0o777: d.mkdir(p, mode))
    one("rmdir", lambda d, p: d.rmdir(p))
    one("unlink", lambda d, p: d.unlink(p))
    one("remove", lambda d, p: d.unlink(p))
    one("chdir", lambda d, p: d.chdir(p), mut=True)
    one("readlink", lambda d, p: d.readlink(p), mut=False)

    real_stat = keep(os, "stat")

    def f_stat(path, *, dir_fd=None, follow_symlinks=True):
        path = at(path, dir_fd)
        if is_virtual(path):
            if isinstance(path, int):
                return DISK._stat(DISK.fd(path).inode)
            return DISK.stat(text(path), follow_symlinks)
        return real_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    put(os, "stat", f_stat)

    real_lstat = keep(os, "lstat")

    def f_lstat(path, *, dir_fd=None):
        path = at(path, dir_fd)
        if is_virtual(path):
            return DISK.stat(text(path), False)
        return real_lstat(path, dir_fd=dir_fd)
    put(os, "lstat", f_lstat)

    real_listdir = keep(os, "listdir")

    def f_listdir(path="."):
        if path is None:
            path = "."
        if is_virtual(path):
            if isinstance(path, int):
                return DISK.listdir(path)
            names = DISK.listdir(text(path))
            return [os.fsencode(n) for n in names] if isinstance(os.fspath(path), bytes) else names
        return real_listdir(path)
    put(os, "listdir", f_listdir)

    real_scandir = keep(os, "scandir")

    def f_scandir(path="."):
        if path is None:
            path = "."
        if is_virtual(path):
            p = DISK.fd(path).path if isinstance(path, int) else text(path)
            names = DISK.listdir(path if isinstance(path, int) else p)
            return SimScandir(DISK, p, [SimDirEntry(DISK, p, n) for n in names])
        return real_scandir(path)
    put(os, "scandir", f_scandir)

    for nm in ("rename", "replace"):
        real_rn = keep(os, nm)

        def f_rn(src, dst, *, src_dir_fd=None, dst_dir_fd=None, _real=real_rn, _nm=nm):
            src, dst = at(src, src_dir_fd), at(dst, dst_dir_fd)
            if is_virtual(src) and is_virtual(dst):
                return DISK.rename(text(src), text(dst))
            if is_virtual(src) or is_virtual(dst):
                _refuse(_nm, "%s -> %s" % (src, dst))
            guard_mut(_nm, src)
            return _real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        put(os, nm, f_rn)

    real_link = keep(os, "link")

    def f_link(src, dst, **k):
        src, dst = at(src, k.get("src_dir_fd")), at(dst, k.get("dst_dir_fd"))
        if is_virtual(dst):
            return DISK.link(text(src), text(dst))
        guard_mut("link", dst)
        return real_link(src, dst, **k)
    put(os, "link", f_link)

    real_symlink = keep(os, "symlink")

    def f_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
        dst = at(dst, dir_fd)
        if is_virtual(dst):
            return DISK.symlink(text(src), text(dst))
        guard_mut("symlink", dst)
        return real_symlink(src, dst, target_is_directory, dir_fd=dir_fd)
    put(os, "symlink", f_symlink)

    real_chmod = keep(os, "chmod")

    def f_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
        path = at(path, dir_fd)
        if is_virtual(path):
            if isinstance(path, int):
                DISK.fd(path).inode.mode = mode & 0o7777
                return
            return DISK.chmod(text(path), mode, follow_symlinks)
        guard_mut("chmod", path)
        return real_chmod(path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    put(os, "chmod", f_chmod)

    real_utime = keep(os, "utime")

    def f_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        path = at(path, dir_fd)
        if is_virtual(path):
            if isinstance(path, int):
                i = DISK.fd(path).inode
                i.mtime = DISK.now() if times is None and ns is None else ns[1] / 1e9 if times is None else float(times[1])
                return
            return DISK.utime(text(path), times, ns, follow_symlinks)
        guard_mut("utime", path)
        kw = {} if ns is None else {"ns": ns}
        return real_utime(path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks, **kw) if ns is None \
            else real_utime(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks, **kw)
    put(os, "utime", f_utime)

    real_access = keep(os, "access")

    def f_access(path, mode, **k):
        path = at(path, k.get("dir_fd"))
        if is_virtual(path):
            try:
                DISK.stat(text(path))
                return True
            except OSError:
                return False
        return real_access(path, mode, **k)
    put(os, "access", f_access)

    real_getcwd = keep(os, "getcwd")

    def f_getcwd():
        return DISK.getcwd() if DISK is not None else real_getcwd()
    put(os, "getcwd", f_getcwd)

    real_os_open = keep(os, "open")

    def f_os_open(path, flags, mode=0o777, *, dir_fd=None):
        path = at(path, dir_fd)
        if is_virtual(path):
            return DISK.open_fd(text(path), flags, mode).fd
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            guard_mut("open", path)
        return real_os_open(path, flags, mode, dir_fd=dir_fd)
    put(os, "open", f_os_open)

    def fdfun(name, method):
        real = keep(os, name)

        def f(fd, *a, **k):
            if DISK is not None and isinstance(fd, int) and fd >= FD_BASE:
                return method(DISK, fd, *a, **k)
            return real(fd, *a, **k)
        put(os, name, f)
    fdfun("close", lambda d, fd: d.close_fd(fd))
    fdfun("read", lambda d, fd, n: d.read_fd(fd, n))
    fdfun("write", lambda d, fd, b: d.write_fd(fd, b))
    fdfun("lseek", lambda d, fd, p, w: d.seek_fd(fd, p, w))
    fdfun("fstat", lambda d, fd: d._stat(d.fd(fd).inode))
    fdfun("ftruncate", lambda d, fd, n: d.truncate_fd(fd, n))
    fdfun("fsync", lambda d, fd: d.syscall("fsync", d.fd(fd).path) and None)
    fdfun("fdatasync", lambda d, fd: d.syscall("fsync", d.fd(fd).path) and None)
    fdfun("isatty", lambda d, fd: False)
    fdfun("dup", lambda d, fd: d.dup_fd(fd))
    fdfun("dup2", lambda d, fd, fd2, inheritable=True: d.dup_fd(fd, fd2))
    fdfun("pread", lambda d, fd, n, offset: d.at(fd, n, offset, d.read_fd))
    fdfun("pwrite", lambda d, fd, b, offset: d.at(fd, b, offset, d.write_fd))
    fdfun("readv", lambda d, fd, bufs: _readv(d, fd, bufs))
    fdfun("writev", lambda d, fd, bufs: d.write_fd(fd, b"".join(bytes(b) for b in bufs)))
    fdfun("fchmod", lambda d, fd, mode: setattr(d.fd(fd).inode, "mode", mode & 0o7777))
    fdfun("fchown", lambda d, fd, uid, gid: d.fd(fd) and None)
    fdfun("fchdir", lambda d, fd: d.chdir(d.fd(fd).path))
    fdfun("get_inheritable", lambda d, fd: d.fd(fd) and False)
    fdfun("set_inheritable", lambda d, fd, v: d.fd(fd) and None)
    fdfun("get_blocking", lambda d, fd: d.fd(fd) and True)
    fdfun("set_blocking", lambda d, fd, v: d.fd(fd) and None)
    fdfun("posix_fadvise", lambda d, fd, *a: d.fd(fd) and None)
    fdfun("posix_fallocate", lambda d, fd, offset, n: d.truncate_fd(fd, max(offset + n, len(d.fd(fd).inode.data))))
    fdfun("lockf", lambda d, fd, cmd, n: None)
    real_closerange = keep(os, "closerange")

    def f_closerange(low, high):
        for fd in [n for n in (DISK.fds if DISK is not None else ()) if low <= n < high]:
            DISK.close_fd(fd)
        real_closerange(low, min(high, FD_BASE))
    put(os, "closerange", f_closerange)

    def f_getcwdb():
        return os.fsencode(os.getcwd())
    put(os, "getcwdb", f_getcwdb)

    def statvfs_of(d, fd_or_path):
        dev = (d.fd(fd_or_path).inode if isinstance(fd_or_path, int) else d.get(text(fd_or_path))).dev
        cap = d.capacity.get(dev)
        room = 1 << 20 if cap is None else max(0, cap - d.used(dev)) // 512
        return os.statvfs_result((512, 512, 1 << 21, room, room, 1 << 20, 1 << 19, 1 << 19, 0, 255))
    for nm in ("statvfs", "fstatvfs"):
        real_v = keep(os, nm)

        def f_v(path, _real=real_v):
            return statvfs_of(DISK, path) if is_virtual(path) else _real(path)
        put(os, nm, f_v)

    real_truncate = keep(os, "truncate")

    def f_truncate(path, length):
        if is_virtual(path):
            if isinstance(path, int):
                return DISK.truncate_fd(path, length)
            DISK.syscall("truncate", text(path))
            return DISK._truncate(DISK.get(text(path)), length)
        guard_mut("truncate", path)
        return real_truncate(path, length)
    put(os, "truncate", f_truncate)

    real_sendfile = keep(os, "sendfile")

    def f_sendfile(out_fd, in_fd, offset, count, *a, **k):
        d = DISK
        if d is not None and (in_fd >= FD_BASE or out_fd >= FD_BASE):
            of = d.fd(in_fd)
            save = of.pos
            if offset is not None:
                of.pos = offset
            data = d.read_fd(in_fd, min(count, 1 << 20))
            of.pos = save
            n = d.write_fd(out_fd, data) if data else 0
            return n
        return real_sendfile(out_fd, in_fd, offset, count, *a, **k)
    put(os, "sendfile", f_sendfile)
    if hasattr(os, "copy_file_range"):
        real_cfr = keep(os, "copy_file_range")

        def f_cfr(src, dst, count, *a, **k):
            if DISK is not None and (src >= FD_BASE or dst >= FD_BASE):
                raise oserr(E.ENOSYS)
            return real_cfr(src, dst, count, *a, **k)
        put(os, "copy_file_range", f_cfr)
    for nm, res in (("listxattr", []), ("getxattr", None), ("setxattr", None)):
        real_x = keep(os, nm)

        def f_x(path, *a, _real=real_x, _res=res, **k):
            if is_virtual(path):
                if _res is None:
                    raise oserr(E.ENOTSUP)
                return list(_res)
            return _real(path, *a, **k)
        put(os, nm, f_x)
    for nm in ("chown", "lchown", "mknod", "mkfifo", "chroot"):
        real_c = keep(os, nm)

        def f_c(path, *a, _real=real_c, _nm=nm, **k):
            if is_virtual(path):
                if _nm in ("chown", "lchown"):
                    DISK.get(text(path))
                    return None
                raise oserr(E.EPERM)
            guard_mut(_nm, path)
            return _real(path, *a, **k)
        put(os, nm, f_c)

    real_flock = fcntl.flock

    def f_flock(fd, op):
        n = fd if isinstance(fd, int) else fd.fileno()
        if DISK is not None and n >= FD_BASE:
            return DISK.flock(n, op)
        return real_flock(fd, op)
    fcntl.flock = f_flock
    real_lockf = fcntl.lockf

    def f_lockf(fd, op, *a):
        n = fd if isinstance(fd, int) else fd.fileno()
        if DISK is not None and n >= FD_BASE:
            return DISK.lockf(n, op)
        return real_lockf(fd, op, *a)
    fcntl.lockf = f_lockf

    real_open = builtins.open

    def f_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
               closefd=True, opener=None):
        if is_virtual(file):
            return sim_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(file, int) and isinstance(mode, str) and set(mode) & set("wax+"):
            guard_mut("open", file)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    builtins.open = f_open
    io.open = f_open
    REAL["builtins.open"] = real_open
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    if hasattr(shutil, "_rmtree_isdir"):
        pass
