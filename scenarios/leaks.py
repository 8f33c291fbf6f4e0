"""C12: no operation leaks open files."""
import io
import zipfile

from . import common, trees
from .trees import TOP

Z1 = "/simdisk/arch/x.zip"          # on the local disk
ZM = "memory:///simdisk/arch/x.zip"
OUTER = "/simdisk/arch/outer.zip"   # with an archive inside


class Boom(Exception):
    pass


def zipped(files):
    buf = io.BytesIO()
    z = zipfile.ZipFile(buf, "w")
    for n, b in files:
        z.writestr(zipfile.ZipInfo(n), b)
    z.close()
    return buf.getvalue()


UNARY = ["exists", "isfile", "isdir", "islink", "listdir", "walk", "walk-part", "walk-raise", "md5", "info", "info-set", "isexec", "set_exec",
         "mtime", "readlink", "glob", "mkdir", "makedirs", "remove", "remove-r", "lock", "lock", "lock-raise", "lock-fail", "read", "read-part", "write",
         "write-raise", "append", "open-bad", "keep", "symlink", "lock-twice"]
BINARY = ["copy", "copy", "copy-r", "copy-r", "copy-nofollow", "move", "copystat"]


class C12Leaks:
    NAME = "c12_leaks"

    @staticmethod
    def gen(rng, tier):
        names = trees.NAMES[:3]
        nt = 1 if rng.random() < 0.75 else rng.choice([2, 3])
        tops = [TOP + "/s", TOP + "/o"]
        es = {}
        for n in ("L", "M0"):
            e = trees.gen_tree(rng, TOP + "/s", rng.choice([4, 8]), names, sizes=[0, 30, 9000], links=nt == 1 and rng.random() < 0.5, link_tops=tops)
            e += trees.gen_tree(rng, TOP + "/o", rng.choice([2, 4]), names, sizes=[0, 5], tag0=500, links=False)
            es[n] = e
        inner = [["d%d/f%d" % (k % 2, k), k, rng.choice([0, 30, 9000])] for k in range(rng.choice([1, 3, 6]))]
        paths = {n: [TOP + "/s", TOP + "/o", TOP + "/new", TOP + "/s/new/deep"] + [e[1] for e in es[n]] for n in es}
        members = ["/" + m[0] for m in inner] + ["/d0", "/d0/new", "/new", "/"]
        paths["ZL"] = paths["ZM"] = paths["ZZ"] = members
        only = rng.choice([None, None, None, "zip", "copy", "lock"])
        ops = []
        for k in range(rng.choice([3, 6, 12, 20])):
            fs = rng.choice(["L", "L", "L", "M0", "ZL", "ZL", "ZM", "ZZ"])
            t = rng.randrange(nt)
            r = rng.random()
            if r < 0.06:
                ops.append([t, "cleanup" if rng.random() < 0.7 or nt > 1 else "drop-kept", "L", "", 0])
                continue
            if only == "zip" and fs[0] != "Z":
                fs = "ZL"
            if only == "copy" or (only is None and r < 0.35):
                kind = rng.choice(BINARY)
                fs2 = rng.choice(["L", "L", "M0", "ZL"])
                if kind == "copystat":
                    fs = fs2 = rng.choice(["L", "M0"])
                ops.append([t, kind, fs, rng.choice(paths[fs]), k, fs2, rng.choice(paths[fs2])])
            else:
                kind = rng.choice([u for u in UNARY if u.startswith("lock")]) if only == "lock" else rng.choice(UNARY)
                if kind == "symlink" and nt > 1:
                    kind = "write"
                if kind.startswith("lock") and fs[0] == "Z":
                    fs = "L"
                ops.append([t, kind, fs, rng.choice(paths[fs]), k])
        r = rng.random()
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=4000000), "ops": ops,
                "params": {"entries": es, "inner": inner, "fault_p": rng.choice([0.02, 0.05, 0.15, 0.4]) if r < 0.75 else 0,
                           "fault_max": rng.choice([1, 1, 2, 5]), "sticky": rng.random() < 0.15, "short_p": rng.choice([0, 0, 0.2]),
                           "capacity": rng.choice([2000, 30000, 60000]) if rng.random() < 0.15 else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("opened", 0) >= 1 and r["ops"] >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        fss = {n: trees.FS(w, n) for n in ("L", "M0")}
        many = len({o[0] for o in plan["ops"]}) > 1
        with w.quiet():
            for n in fss:
                fss[n].build(pr["entries"][n])
            # member names of the library's own archives start with a slash
            blob = zipped([("/" + m[0], trees.content(m[1], m[2])) for m in pr["inner"]])
            fss["L"].put(Z1, blob)
            fss["M0"].put("/simdisk/arch/x.zip", blob)
            fss["L"].put(OUTER, zipped([("/in/x.zip", blob)]))
        if pr["capacity"]:
            w.disk.capacity[w.disk.devs] = pr["capacity"]
        mem = trees.MemFaults(w, fss["M0"])
        kept = []
        opened = [0]
        w.disk.watch = lambda op, path: opened.__setitem__(0, opened[0] + (op in ("open", "open-create")))

        def uri(fs, path):
            if fs in fss:
                return fss[fs].uri(path)
            host = {"ZL": Z1, "ZM": ZM, "ZZ": "zip://((%s))/in/x.zip" % OUTER}[fs]
            return w.URI("zip://((%s))%s" % (host, path))

        def do(kind, fs, path, k, rest):
            u = uri(fs, path)
            if kind in ("exists", "isfile", "isdir", "islink", "listdir", "md5", "info", "mtime", "readlink", "mkdir", "makedirs", "remove"):
                return getattr(u, kind)()
            if kind == "remove-r":
                return u.remove("r")
            if kind == "walk":
                return list(u.walk(topdown=bool(k % 2), followlinks=False))
            if kind in ("walk-part", "walk-raise"):
                for n, x in enumerate(u.walk(topdown=bool(k % 2), followlinks=False)):
                    if n == k % 3:
                        if kind == "walk-raise":
                            raise Boom()
                        break
                return
            if kind == "info-set":
                return u.info(set_info={"mode": 0o640})
            if kind == "isexec":
                return u.isexec(0o100)
            if kind == "set_exec":
                return u.set_exec(0o100)
            if kind == "glob":
                return u.glob("*")
            if kind == "symlink":
                return uri(fs, TOP + "/s").symlink(u)
            if kind in ("lock", "lock-raise", "lock-fail", "lock-twice"):
                with u.lock(fail_on_lock=kind == "lock-fail" or many, cleanup=bool(k % 3 == 0)) as h:
                    h.write("x" * 10 if fs == "L" else b"x" * 10)
                    if kind == "lock-raise":
                        raise Boom()
                    if kind == "lock-twice":
                        with u.lock(fail_on_lock=True):
                            pass
                return
            if kind in ("read", "read-part"):
                with u.open(["rb", "r", None][k % 3]) as h:
                    h.read(*([] if kind == "read" else [5]))
                return
            if kind in ("write", "append", "write-raise"):
                with u.open("ab" if kind == "append" and fs[0] != "Z" else "wb") as h:
                    h.write(b"y" * [0, 10, 9000][k % 3])
                    if kind == "write-raise":
                        raise Boom()
                return
            if kind == "open-bad":
                # returns no file, whatever it does
                h = u.open("qb" if fs[0] != "Z" else "r")
                h.close()
                return
            if kind == "keep":
                return u.open("rb" if k % 2 else "wb")
            fs2, path2 = rest
            v = uri(fs2, path2)
            if kind == "copy":
                return u.copy(v)
            if kind == "copy-r":
                return u.copy(v, recursive=True)
            if kind == "copy-nofollow":
                return u.copy(v, recursive=u.isdir(), followlinks=False)
            if kind == "move":
                return u.move(v)
            if kind == "copystat":
                return u.copystat(v)
            raise AssertionError(kind)

        def state():
            return set(w.disk.fds), len(w.disk.unclosed)

        def names(fds):
            return sorted(w.disk.fds[x].path for x in fds)

        def endless(kind, fs, path):
            """a circle of links, which nothing but the system ends"""
            if kind not in ("copy-r", "move") or fs not in fss or many:
                return False
            f = fss[fs]
            f.resync(f.dump())
            return f.tree.isdir(path) and f.tree.cyclic(path)

        def body(tid, ops):
            for op in ops:
                kind, fs, path, k = op[:4]
                if kind == "cleanup":
                    if not many:
                        for h in [h for h, f in kept if f == "M0"]:
                            h.close()
                        before = state()
                        with armed():
                            zips = [c for key, c in list(w.registry.connections.items()) if key[0] != "memory"]
                            for c in zips:
                                w.call("close", c.close)
                        after = state()
                        if after[0] - before[0] or after[1] > before[1]:
                            w.fail("leak", "cleaning up opened %s" % names(after[0] - before[0]))
                    continue
                if kind == "drop-kept":
                    for h, _ in kept:
                        w.call("close kept", h.close)
                    del kept[:]
                    continue
                if endless(kind, fs, path):
                    continue
                before = state()
                with armed():
                    o = w.call("%s %s:%s %s" % (kind, fs, path, op[4:]), lambda: do(kind, fs, path, k, op[4:]))
                    met = list(w.disk.faults.fired)
                mine = set()
                if kind == "keep" and o.ok:
                    kept.append((o.value, fs))
                    if fs == "L":
                        try:
                            mine.add(o.value.fileno())
                        except Exception:
                            pass
                o.value = None
                if many:
                    continue
                after = state()
                left = after[0] - before[0] - mine
                if left:
                    w.fail("leak", "%s %s:%s %s %s with %s left open (faults: %s)" % (
                        kind, fs, path, op[4:], "returned" if o.ok else "raised " + o.exc_text, names(left), met))
                if after[1] > before[1]:
                    w.fail("leak", "%s %s:%s %s %s without closing %s, which only the garbage collector did (faults: %s)" % (
                        kind, fs, path, op[4:], "returned" if o.ok else "raised " + o.exc_text, w.disk.unclosed[before[1]:], met))

        def armed():
            return w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], short_p=pr["short_p"])
        if pr["fault_p"] and not many:
            mem.install([e[1] for e in pr["entries"]["M0"]] + [TOP + "/new", "/simdisk/arch/x.zip"])
        if many:
            with armed():
                common.run_threads(w, plan, body)
        else:
            common.run_threads(w, plan, body)
        mem.remove()
        w.probe("opened", opened[0])
        with w.quiet(), w.no_faults():
            for h, _ in kept:
                w.call("close kept", h.close)
            del kept[:]
            w.registry.cleanup(force=True)
            fds, unclosed = state()
        if fds:
            w.fail("leak", "after everything was closed and cleaned up these are open: %s" % names(fds))
        if unclosed:
            w.fail("leak", "files were left to the garbage collector: %s" % w.disk.unclosed)
