#!/usr/bin/env python3
"""Is the simulated disk like a real one?  Random sequences of system calls on both, results compared.

  fidelity.py [sequences]     (real files only inside a scratch folder that is removed again)
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.reexec()
import errno
import fcntl
import random
import shutil
import stat
import tempfile

os.chdir("/")
SCRATCH = tempfile.mkdtemp(prefix="fidelity")
boot.load()
from sim import core, disk, world

NAMES = ["a", "b", "c", "d"]


def path(rng):
    p = "/" + rng.choice(NAMES)
    while rng.random() < 0.4:
        p += "/" + rng.choice(NAMES + ["..", "."] if rng.random() < 0.15 else NAMES)
    while p.endswith("/."):
        p = p[:-2]
    if rng.random() < 0.05:
        p += "/"
    return p


def gen(rng):
    out = []
    for k in range(rng.choice([10, 30, 60])):
        kind = rng.choice(["mkdir", "mkdir", "rmdir", "unlink", "rename", "rename", "symlink", "link", "listdir", "stat", "lstat", "readlink", "write", "write", "append",
                           "read", "update", "chmod", "utime", "open", "open", "fd", "fd", "fd", "truncate", "exists", "scandir", "excl", "rmtree", "replace", "copy", "flock", "relative", "at"])
        out.append((kind, path(rng), path(rng), k, rng.randrange(1 << 30)))
    return out


def apply(root, ops, fds):
    """-> results"""
    out = []
    for kind, a, b, k, r in ops:
        if kind in ("rename", "replace", "link", "symlink", "unlink", "copy", "rmdir", "rmtree", "mkdir"):    # error codes of trailing slashes differ between file systems too
            a, b = a.rstrip("/"), b.rstrip("/")
        p, q = root + a, root + b
        try:
            v = one(root, kind, p, q, k, random.Random(r), fds)
        except OSError as e:
            v = "E:" + errno.errorcode.get(e.errno, str(e.errno))
            if isinstance(e, shutil.Error):
                v = "E:shutil.Error"
        except ValueError:
            v = "E:ValueError"
        except shutil.Error:
            v = "E:shutil.Error"
        if os.environ.get("FID_DEBUG"):
            print(root, kind, a, b, v)
        if isinstance(v, str):
            v = v.replace(root, "<root>")
        out.append((kind, a, b, v))
    return out


def info(s):
    return (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode) if not stat.S_ISLNK(s.st_mode) else None, s.st_size if stat.S_ISREG(s.st_mode) else None,
            s.st_nlink if stat.S_ISREG(s.st_mode) else None)


def one(root, kind, p, q, k, rng, fds):
    data = bytes((k * 7 + i) % 256 for i in range(rng.choice([0, 1, 10, 5000, 9000])))
    if kind == "mkdir":
        return os.mkdir(p)
    if kind in ("rmdir", "unlink", "readlink"):
        return getattr(os, kind)(p)
    if kind in ("rename", "replace", "link"):
        return getattr(os, kind)(p, q)
    if kind == "symlink":
        return os.symlink(p if k % 2 else rng.choice(NAMES + ["./a", "."]), q)
    if kind == "listdir":
        return sorted(os.listdir(p))
    if kind == "scandir":
        with os.scandir(p) as it:
            return sorted((e.name, e.is_dir(), e.is_file(), e.is_symlink(), e.is_dir(follow_symlinks=False)) for e in it)
    if kind in ("stat", "lstat"):
        return info(getattr(os, kind)(p))
    if kind in ("write", "append", "update", "excl"):
        m = {"write": "wb", "append": "ab", "update": "r+b", "excl": "xb"}[kind]
        with open(p, m) as h:
            t = [h.tell(), h.write(data), h.tell()]
            if k % 3 == 0:
                h.seek(rng.choice([0, 3, 100]))
                t.append(h.write(b"zz"))
            if k % 5 == 0:
                t.append(h.truncate(rng.choice([0, 5, 20000])))
        return str(t)
    if kind == "read":
        with open(p, rng.choice(["rb", "rb", "r+b"])) as h:
            h.seek(rng.choice([0, 0, 5]))
            return str((h.read(rng.choice([-1, 0, 1, 100, 8192])), h.tell()))
    if kind == "chmod":
        return os.chmod(p, rng.choice([0o644, 0o755, 0o600, 0o700]))
    if kind == "utime":
        os.utime(p, ns=(10 ** 18, 10 ** 18 + k * 10 ** 6))
        return round(os.stat(p).st_mtime, 3)
    if kind == "exists":
        return (os.path.exists(p), os.path.lexists(p), os.path.isfile(p), os.path.isdir(p), os.path.islink(p), os.path.realpath(p).replace(root, "<root>"))
    if kind == "truncate":
        return os.truncate(p, rng.choice([0, 10, 10000]))
    if kind == "open":
        fl = rng.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_CREAT, os.O_RDWR | os.O_CREAT | os.O_EXCL, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                         os.O_WRONLY | os.O_APPEND | os.O_CREAT, os.O_RDWR | os.O_NOFOLLOW])
        f = os.open(p, fl, 0o644)
        if stat.S_ISDIR(os.fstat(f).st_mode):
            os.close(f)
            return "a folder"
        fds.append(f)
        return "opened"
    if kind == "fd":
        if not fds:
            return None
        f = fds[rng.randrange(len(fds))]
        what = rng.choice(["read", "write", "seek", "stat", "close", "truncate", "fsync", "dup", "pread", "pwrite", "fchmod", "lockf", "utime", "writev"])
        if what == "dup":
            fds.append(os.dup(f))
            return "dup"
        if what == "pread":
            return str(os.pread(f, rng.choice([0, 3, 10000]), rng.choice([0, 5])))
        if what == "pwrite":
            return str(os.pwrite(f, data, rng.choice([0, 5])))
        if what == "writev":
            return str(os.writev(f, [data, b"-", data]))
        if what == "fchmod":
            return os.fchmod(f, rng.choice([0o644, 0o755]))
        if what == "utime":
            os.utime(f, ns=(10 ** 18, 10 ** 18 + k * 10 ** 6))
            return round(os.stat(f).st_mtime, 3)
        if what == "lockf":
            return fcntl.lockf(f, rng.choice([fcntl.LOCK_EX, fcntl.LOCK_SH]) | fcntl.LOCK_NB)
        if what == "read":
            return str(os.read(f, rng.choice([0, 3, 10000])))
        if what == "write":
            return str(os.write(f, data))
        if what == "seek":
            return os.lseek(f, rng.choice([0, 3, 20]), rng.choice([0, 1, 2]))
        if what == "stat":
            return info(os.fstat(f))
        if what == "truncate":
            return os.ftruncate(f, rng.choice([0, 7]))
        if what == "fsync":
            return os.fsync(f)
        fds.remove(f)
        return os.close(f)
    if kind == "flock":
        if len(fds) < 2:
            return None
        f = fds[rng.randrange(len(fds))]
        return fcntl.flock(f, rng.choice([fcntl.LOCK_EX | fcntl.LOCK_NB, fcntl.LOCK_UN, fcntl.LOCK_SH | fcntl.LOCK_NB]))
    if kind == "rmtree":
        if p.rstrip("/") == root:
            return None
        return shutil.rmtree(p)
    if kind == "copy":
        return str(shutil.copyfile(p, q))
    if kind == "at":
        f = os.open(p, os.O_RDONLY | os.O_DIRECTORY)
        try:
            t = [sorted(os.listdir(f))]
            with os.scandir(f) as it:
                t.append(sorted((e.name, e.is_dir()) for e in it))
            n = rng.choice(NAMES)
            what = rng.choice(["mkdir", "open", "unlink", "rename", "symlink", "stat"])
            if what == "mkdir":
                os.mkdir(n, dir_fd=f)
            elif what == "open":
                os.close(os.open(n, os.O_WRONLY | os.O_CREAT, 0o644, dir_fd=f))
            elif what == "unlink":
                os.unlink(n, dir_fd=f)
            elif what == "rename":
                os.rename(n, rng.choice(NAMES), src_dir_fd=f, dst_dir_fd=f)
            elif what == "symlink":
                os.symlink(rng.choice(NAMES), n, dir_fd=f)
            else:
                t.append(info(os.stat(n, dir_fd=f, follow_symlinks=False)))
            return str(t)
        finally:
            os.close(f)
    if kind == "relative":
        os.chdir(root)
        try:
            return sorted(os.listdir(p[len(root) + 1:] or "."))
        finally:
            os.chdir("/" if root != disk.ROOT else disk.ROOT)
    raise AssertionError(kind)


def tree(root):
    out = {}
    for top, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(top, n)
            s = os.lstat(p)
            v = info(s)
            if stat.S_ISLNK(s.st_mode):
                v = ("l", os.readlink(p).replace(root, "<root>"))
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as h:
                    v += (h.read(),)
            out[p[len(root):]] = v
    return out


def run(n):
    """one sequence on the simulated, then on the real disk"""
    rng = random.Random("fidelity/%d" % n)
    ops = [o for o in gen(rng)]
    # nothing above the root of either
    ops = [o for o in ops if not any(os.path.normpath("/x" + x).count("x") != 1 or ".." in x for x in (o[1], o[2])) or True]
    ops = [o for o in ops if ".." not in o[1] and ".." not in o[2]]
    got = {}

    class Scen:
        @staticmethod
        def run(w, plan):
            fds = []
            got["r"] = apply(disk.ROOT, ops, fds)
            got["t"] = tree(disk.ROOT)
    res = world.execute(Scen, {"seed": "x", "ops": [], "sim": {"step_cap": 10 ** 7}})
    if res["status"] not in ("ok",):
        return "simulation: %s %s" % (res["kind"], res["detail"])
    disk.DISK = None
    real = os.path.join(SCRATCH, "r")
    os.mkdir(real)
    fds = []
    try:
        r = apply(real, ops, fds)
        t = tree(real)
    finally:
        for f in fds:
            os.close(f)
        shutil.rmtree(real)
    for x, y in zip(got["r"], r):
        if x != y:
            return "%s %s %s: simulated %r, real %r" % (x[0], x[1], x[2], x[3], y[3])
    if os.environ.get("FID_DEBUG"):
        print(got["t"], t)
    if got["t"] != t:
        return "trees differ: %s" % [(k, got["t"].get(k), t.get(k)) for k in sorted(set(t) | set(got["t"])) if t.get(k) != got["t"].get(k)][:3]
    return None


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
    if len(sys.argv) > 2:
        print(run(int(sys.argv[2])))
        return
    bad = calls = 0
    try:
        os.umask(0o022)
        for i in range(n):
            e = run(i)
            if e:
                bad += 1
                if bad <= 12:
                    print("sequence %d: %s" % (i, e))
    finally:
        os.chdir("/")
        shutil.rmtree(SCRATCH)
    print("%d of %d sequences differ" % (bad, n))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
