"""C07: one history against memory or local and the reference tree."""
import errno

from . import common, model
from .model import Err, Skip

POOL = ["a", "b", "c", "d", "e", "aa", "a.b", "x y", " lead", "trail ", "\u00fc", "UP", "f.txt", "a-b_c", "~t", "a+b", "a=b", "a;b", "a,b", "%41", "a:b", "[x]", "a*", "@", "'q'", "."[:0] + "n.", "..."]

READ_OPS = ["exists", "isfile", "isdir", "islink", "readlink", "listdir", "read", "md5", "size", "mtime", "isexec", "glob", "walk"]
SINGLE = {"mkdir", "symlink", "set_exec", "remove1"}


class Adapter:
    """Runs model operations on the library."""

    def __init__(self, w, backend, sub=""):
        self.w, self.backend = w, backend
        self.prefix = ("/simdisk" if backend == "file" else "") + sub
        self.scheme = "" if backend == "file" else "memory://"

    def uri(self, p):
        path = self.prefix + "/" + "/".join(model.parts(p))
        if self.backend == "file" and path.endswith("/"):
            path = path[:-1]
        return self.w.URI(self.scheme + path)

    def strip(self, path):
        if not path.startswith(self.prefix):
            return "?" + path
        return "/" + "/".join(model.parts(path[len(self.prefix):]))

    def do(self, op):
        name, p = op[0], op[1]
        u = self.uri(p)
        return getattr(self, "op_" + name)(u, *op[2:])

    def op_exists(self, u):
        return u.exists()

    def op_isfile(self, u):
        return u.isfile()

    def op_isdir(self, u):
        return u.isdir()

    def op_islink(self, u):
        return u.islink()

    def op_readlink(self, u):
        return self.strip(u.readlink().path)

    def op_listdir(self, u):
        return u.listdir()

    def op_read(self, u):
        h = u.open("rb")
        try:
            return h.read()
        finally:
            h.close()

    def op_md5(self, u):
        return u.md5()

    def op_size(self, u):
        return u.info().size

    def op_mtime(self, u):
        t = u.mtime()
        return t is not None and t == u.info().mtime

    def op_isexec(self, u, mask):
        return bool(u.isexec(mask))

    def op_glob(self, u, pat):
        base = u.path.rstrip("/")
        return [x.path[len(base) + 1:] for x in u.glob(pat)]

    def op_walk(self, u, topdown, follow):
        out = []
        base = u.path.rstrip("/")
        for r, d, f in u.walk(topdown=topdown, followlinks=follow):
            out.append((r.path[len(base):].strip("/"), list(d), list(f)))
        return out

    def op_mkdir(self, u):
        u.mkdir()

    def op_makedirs(self, u):
        u.makedirs()

    def op_write(self, u, data):
        with u.open("wb") as h:
            h.write(data.encode())

    def op_append(self, u, data):
        with u.open("ab") as h:
            h.write(data.encode())

    def op_symlink(self, u, target):
        self.uri(target).symlink(u)

    def op_remove(self, u, rec):
        u.remove(recursive=rec)

    def op_set_exec(self, u, bits):
        u.set_exec(bits)

    def op_copystat(self, u, other):
        u.copystat(self.uri(other))

    def op_copy(self, u, other, rec, follow):
        u.copy(self.uri(other), recursive=rec, followlinks=follow)

    def op_move(self, u, other):
        u.move(self.uri(other))

    def bits(self, p):
        u = self.uri(p)
        return sum(m for m in (0o100, 0o010, 0o001) if u.isexec(m))

    # whole tree through the public interface
    def dump(self):
        out = {}

        def rec(u, rel):
            for k in u.listdir():
                c = u / k
                p = rel + "/" + k if rel else k
                if c.islink():
                    out[p] = ("l", self.strip(c.readlink().path))
                elif c.isdir():
                    out[p] = ("d",)
                    rec(c, p)
                elif c.isfile():
                    out[p] = ("f", self.op_read(c))
                else:
                    out[p] = ("?",)
        rec(self.uri("/"), "")
        return out


def apply_model(t, op):
    name, p = op[0], op[1]
    a = list(op[2:])
    if name in ("write", "append"):
        a[0] = a[0].encode()
    try:
        v = getattr(t, name)(p, *a) if name != "symlink" else t.symlink(a[0], p)
        if name in ("write", "append", "mkdir", "makedirs", "symlink", "remove", "set_exec", "copystat", "copy", "move"):
            v = None
        return ("ok", v)
    except Err as e:
        return ("err", e.kind)


def disk_dump(w, ad):
    raw = w.disk.tree("/simdisk")
    out = {}
    for k, v in raw.items():
        if k == "":
            continue
        if v[0] == "l":
            v = ("l", ad.strip(v[1]))
        elif v[0] == "f":
            v = ("f", v[1])
        out[k] = v
    return out


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %r instead of %r" % (k, a.get(k), b.get(k)))
    return "; ".join(out[:6])


def gen_history(rng, tier, nops, names):
    def path(deep=3):
        if rng.random() < 0.03:
            return "/"
        if recent and rng.random() < again:
            return rng.choice(recent[-4:])
        n = rng.choice([1, 1, 2, 2, 3][:deep + 2])
        recent.append("/" + "/".join(rng.choice(names) for _ in range(n)))
        return recent[-1]
    recent, again = [], rng.choice([0, 0.3, 0.6])
    ops = []
    data_n = 0
    weights = [("mkdir", 6), ("makedirs", 3), ("write", 6), ("append", 3), ("remove", 5), ("symlink", 4),
               ("set_exec", 1), ("copystat", 1), ("copy", 3), ("move", 3)] + [(x, 1) for x in READ_OPS]
    swarm = [(n, wt) for n, wt in weights if rng.random() < 0.85]
    if rng.random() < 0.15:
        swarm = [(n, wt * 5 if n in ("set_exec", "isexec", "copystat", "write") else wt) for n, wt in swarm]
    kinds = [n for n, wt in swarm for _ in range(wt)] or ["mkdir"]
    if rng.random() < 0.1:
        # one link leads to the next
        n = rng.randint(2, 18)
        chain = [["symlink", "/k%d" % i, "/k%d" % (i + 1) if i < n else path()] for i in range(n + 1)]
        rng.shuffle(chain)
        ops += chain
        names = names + ["k0", "k1", "k%d" % n]
        recent.append("/k0")
    for _ in range(nops):
        k = rng.choice(kinds)
        p = path()
        if k in ("write", "append"):
            data_n += 1
            ops.append([k, p, rng.choice(["", "x%d" % data_n, ("long%d " % data_n) * rng.choice([3, 2000])])])
        elif k == "remove":
            ops.append([k, p, rng.random() < 0.5])
        elif k == "symlink":
            ops.append([k, p, path()])
        elif k == "set_exec":
            ops.append([k, p, rng.choice([0, 0o100, 0o010, 0o001, 0o111, 0o101])])
        elif k == "isexec":
            ops.append([k, p, rng.choice([0o100, 0o010, 0o001, 0o111, 0o110])])
        elif k == "copystat":
            ops.append([k, p, path()])
        elif k == "copy":
            ops.append([k, p, path(), rng.random() < 0.6, rng.random() < 0.5])
        elif k == "move":
            ops.append([k, p, path()])
        elif k == "glob":
            ops.append([k, rng.choice(["/", p]), rng.choice(["*", "a*", "?", "*.*", "[ab]*"])])
        elif k == "walk":
            ops.append([k, rng.choice(["/", p]), rng.random() < 0.5, rng.random() < 0.4])
        elif k == "listdir":
            ops.append([k, rng.choice(["/", p, p])])
        else:
            ops.append([k, p])
    return ops


class C07History:
    NAME = "c07_history"

    @staticmethod
    def gen(rng, tier):
        names = rng.sample(POOL, rng.choice([2, 2, 3, 4]))
        names = [n if not n.startswith(".") else "x" + n for n in names]
        ops = gen_history(rng, tier, rng.choice([6, 10, 16, 30]), names)
        backend = rng.choice(["memory", "file"])
        if backend == "file" and rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                ops.insert(rng.randrange(len(ops) + 1), ["drop", "/"])
        faults = backend == "file" and rng.random() < 0.4
        return {"sim": common.sim_params(rng, threads=False, step_cap=4000000),
                "ops": [[0] + o for o in ops],
                "params": {"backend": backend, "fault_p": rng.choice([0.05, 0.15, 0.3]) if faults else 0,
                           "short_p": rng.choice([0, 0.3]) if backend == "file" else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("changed", 0) >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        ad = Adapter(w, pr["backend"])
        t = model.Tree()
        local = pr["backend"] == "file"

        def real():
            return disk_dump(w, ad) if local else ad.dump()

        def executable(why):
            for p, v in sorted(t.dump().items()):
                if v[0] == "f":
                    want, got = t.node("/" + p).exe, ad.bits("/" + p)
                    if want != got:
                        w.fail("disagree", "%s on %s: %s has the execution bits %o, the reference says %o" % (why, pr["backend"], p, got, want))

        for op in plan["ops"]:
            op = op[1:]
            if op[0] == "drop":
                w.registry.cleanup(force=True)
                continue
            trial = t.clone()
            try:
                want = apply_model(trial, op)
            except Skip:
                w.probe("skipped")
                continue
            before = t.dump()
            if want[0] == "ok" and trial.dump() != before:
                w.probe("changed")
            if want[0] == "err":
                w.probe("err:" + want[1])
            with w.faults(p=pr["fault_p"], max=1, short_p=pr["short_p"]) as f:
                o = w.call(" ".join(map(str, op))[:120], ad.do, op)
            got = ("ok", o.value) if o.ok else ("err", o.kind)
            if got == want:
                t = trial
            elif f.hard and not o.ok:
                w.probe("fault-reported")
                w.disk.calls += 0
                now = real()
                if op[0] in READ_OPS or op[0] in ("mkdir", "symlink", "set_exec", "copystat") or \
                        (op[0] == "remove" and (not op[2])):
                    if now != before:
                        w.fail("failed-op-changed", "%s raised %s because of a storage error, but changed the tree: %s" % (
                            op, o.kind, diff(now, before)))
                    continue
                # several steps: judged by C08-C10; go on from here
                t = resync(now, ad)
                continue
            elif f.hard:
                w.fail("fault-swallowed", "%s met a storage error %s but reported %r" % (op, f.fired, o))
            else:
                w.fail("disagree", "%s on %s: %s: got %r, the reference says %s %s" % (
                    op, pr["backend"], "", o, want[0], str(want[1])[:200]))
            now = real()
            exp = t.dump()
            if now != exp:
                w.fail("tree", "after %s (%s): %s" % (op, want[0], diff(now, exp)))
            if op[0] in ("set_exec", "copystat", "copy", "move", "write", "append"):
                executable(op)
        if local:
            exp = t.dump()
            now = ad.dump()
            if now != exp:
                w.fail("tree", "at the end, listed: %s" % diff(now, exp))


def resync(dump, ad):
    t = model.Tree()
    for k in sorted(dump):
        v = dump[k]
        *up, name = k.split("/")
        d = t.root
        for x in up:
            d = d.entries[x]
        n = d.entries[name] = model.N(v[0])
        if v[0] == "f":
            n.data = v[1]
            n.exe = ad.bits("/" + k)
        elif v[0] == "l":
            n.target = v[1]
    return t
