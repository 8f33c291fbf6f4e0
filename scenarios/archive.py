"""C11: members of a zip archive."""
import hashlib

from . import common, trees
from .trees import content

GROUPS = [["a", "b", "c"], ["d/a", "d/b", "d/e/f", "d/e/g"], ["\u00e4 x", "x.txt", "dir.d/n"], ["k" * 60 + "/l"],
          ["n", "nn", "nn.x", "nna/b"], ["p/q", "pp/q", "p/qq/r", "p/qqr"], ["o1/o2/o3", "o1/o2x/o3", "o1x"]]


class Boom(Exception):
    pass


class C11Members:
    NAME = "c11_members"

    @staticmethod
    def gen(rng, tier):
        pool = [x for g in (GROUPS if rng.random() < 0.5 else rng.sample(GROUPS, rng.choice([1, 2]))) for x in g]
        names = rng.sample(pool, min(len(pool), rng.choice([2, 3, 5])))
        sizes = rng.choice([[0, 1, 30], [0, 100, 5000], [8191, 8192, 40000], [0, 1, 30, 70000]])
        on = rng.choice(["file", "file", "memory"])
        ops = []
        kinds = ["write"] * 6 + ["read"] * 4 + ["query"] * 3 + ["list"] * 2 + ["walk", "md5"] + ["cleanup"] * 2 + ["missing", "raise", "idle", "room"]
        if rng.random() < 0.3:
            kinds = [k for k in kinds if rng.random() < 0.7] + ["write", "read"]
        for k in range(rng.choice([4, 8, 15, 30])):
            kind = rng.choice(kinds)
            n = rng.choice(names)
            if kind in ("write", "raise"):
                ops.append([0, kind, n, k, rng.choice(sizes), rng.choice(["with", "close", "chunks"]), rng.random() < 0.3])
            elif kind == "read":
                ops.append([0, kind, n, rng.choice([-1, 1, 100, 4096]), rng.choice(["rb", "r", None])])
            elif kind == "room":
                ops.append([0, kind, rng.choice([20, 300, 5000, None, None])])
            elif kind == "idle":
                ops.append([0, kind, rng.choice([10, 400, 4000])])
            else:
                ops.append([0, kind, n])
        r = rng.random()
        return {"sim": common.sim_params(rng, threads=False, step_cap=4000000), "ops": ops,
                "params": {"on": on, "fault_p": rng.choice([0.01, 0.03, 0.1, 0.3]) if r < 0.6 and on == "file" else 0,
                           "only_writes": rng.random() < 0.5,
                           "short_p": rng.choice([0, 0, 0.3]), "capacity": rng.choice([1, 10, 21, 30, 300, 300, 3000, 3000, 20000, 60000]) if r > 0.75 and on == "file" else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("stored", 0) >= 2 or r["probes"].get("fault-reported", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        local = pr["on"] == "file"
        arch = "/simdisk/z/x.zip" if local else "memory:///z/x.zip"
        if local:
            w.disk.mount("z")
            if pr["capacity"]:
                w.disk.capacity[w.disk.devs] = pr["capacity"]
        else:
            w.URI("memory:///z").mkdir()
        root = "zip://((%s))/" % arch
        now = {}          # member -> contents it may have (None = absent)
        dirs = {}

        def uri(n):
            return w.URI(root + n)

        def armed(op):
            # a single error; a full disk besides
            return w.faults(p=pr["fault_p"], max=1, short_p=pr["short_p"],
                            ops=["write", "truncate", "close"] if pr["only_writes"] else ["open", "open-create", "read", "write", "truncate", "close"])

        def certain(n):
            return len(now.get(n, [None])) == 1

        def narrow(n, value):
            now[n] = [value]

        def read(n, what):
            o = w.call("read %s" % n, lambda: slurp(n, -1, "rb"))
            cands = now.get(n, [None])
            if o.ok:
                if o.value not in cands:
                    w.fail("member-lost", "%s: %s reads as %d bytes %r, stored were %s" % (
                        what, n, len(o.value), o.value[:30], [None if c is None else (len(c), c[:30]) for c in cands]))
                narrow(n, o.value)
            elif o.kind == "ENOENT" and None in cands:
                narrow(n, None)
            else:
                w.fail("member-lost", "%s: reading %s: %r" % (what, n, o))

        def slurp(n, size, mode):
            h = uri(n).open(mode) if mode else uri(n).open()
            try:
                if size < 0:
                    return h.read()
                out = b""
                while True:
                    b = h.read(size)
                    if not b:
                        return out
                    out += b
            finally:
                h.close()

        def names_now():
            """-> (surely there, maybe there)"""
            sure = {n for n, c in now.items() if None not in c}
            maybe = {n for n, c in now.items() if any(x is not None for x in c)}
            return sure, maybe

        def folders(ms):
            out = {""}
            for m in ms:
                p = m.split("/")
                for k in range(1, len(p)):
                    out.add("/".join(p[:k]))
            return out

        def audit(what):
            """everything, without faults"""
            sure, maybe = names_now()
            for n in sorted(maybe | set(now)):
                read(n, what)
            sure, maybe = names_now()
            tops = {m.split("/")[0] for m in sure}
            o = w.call("list", w.URI(root).listdir)
            if not o.ok or sorted(o.value) != sorted(tops) or list(o.value) != sorted(o.value):
                w.fail("listing", "%s: the archive lists %r, there are %s" % (what, o, sorted(tops)))
            for n in sorted(now):
                for q, want in (("exists", n in sure), ("isfile", n in sure), ("isdir", False)):
                    o = w.call("%s %s" % (q, n), getattr(uri(n), q))
                    if not o.ok or o.value is not want:
                        w.fail("query", "%s: %s(%s) is %r, should be %s" % (what, q, n, o, want))
            # the neighbourhood, of which nothing is there
            there = folders(sure)
            near = set()
            for n in sorted(now):
                near |= {n[:-1], n + "x", n + "/x", n.split("/")[0] + "x"} | {n[:k] for k in range(1, len(n), 7)}
            for n in sorted(x for x in near if x.strip("/") == x and x and x not in there and x not in maybe)[:6]:
                got = [w.call("%s %s" % (q, n), getattr(uri(n), q)) for q in ("exists", "isdir", "isfile")]
                if [g.value for g in got] != [False, False, False]:
                    w.fail("query", "%s: exists, isdir, isfile of %s are %s, there are %s" % (what, n, got, sorted(sure)))
            got = [w.call("%s /" % q, getattr(w.URI(root), q)) for q in ("isdir", "isfile")]
            if [g.value for g in got] != [True, False]:
                w.fail("query", "%s: isdir, isfile of the top folder are %s" % (what, got))
            for d in sorted(there):
                if d:
                    got = [w.call("%s %s" % (q, d), getattr(uri(d), q)) for q in ("exists", "isdir", "isfile")]
                    if [g.value for g in got] != [True, True, False]:
                        w.fail("query", "%s: exists, isdir, isfile of the folder %s are %s" % (what, d, got))
                    o = w.call("list " + d, uri(d).listdir)
                    want = sorted({m[len(d) + 1:].split("/")[0] for m in sure if m.startswith(d + "/")})
                    if not o.ok or o.value != want:
                        w.fail("listing", "%s: %s lists %r, there are %s" % (what, d, o, want))

        for op in plan["ops"]:
            kind = op[1]
            if kind == "idle":
                if not local:
                    # an idle memory file system is dropped with its content
                    continue
                w.sleep(op[2])
                w.registry.cleanup()
                continue
            if kind == "room":
                # somebody else removes something
                if w.disk.devs in w.disk.capacity:
                    if op[2] is None:
                        del w.disk.capacity[w.disk.devs]
                    else:
                        w.disk.capacity[w.disk.devs] += op[2]
                continue
            n = op[2]
            if kind == "cleanup":
                if not local:
                    # a memory file system would go with it
                    with w.quiet():
                        uri("x").get_connection().close()
                else:
                    w.registry.cleanup(force=True)
                continue
            if kind in ("write", "raise"):
                _, _, n, tag, size, how, empty = op
                data = content(tag + 1, size)
                before = list(now.get(n, [None]))
                handed = []

                def write():
                    h = uri(n).open("wb")
                    if how == "with":
                        with h:
                            h.write(data)
                            if kind == "raise":
                                raise Boom()
                    else:
                        k = max(1, len(data) // 3)
                        if how == "chunks":
                            for i in range(0, len(data), k):
                                h.write(data[i:i + k])
                        else:
                            h.write(data)
                        if kind == "raise":
                            del h
                            raise Boom()
                        h.close()
                with armed(op) as fl:
                    o = w.call("%s %s %d bytes" % (kind, n, len(data)), write)
                    hard = fl.hard
                if kind == "raise":
                    if o.ok or (o.kind != "Boom" and not hard):
                        w.fail("swallowed", "leaving the block with an exception: %r" % o)
                    now[n] = before + [data] if how == "with" else before
                    if o.kind != "Boom":
                        w.probe("fault-reported")
                elif o.ok:
                    if hard:
                        w.fail("fault-swallowed", "writing %s met %s and returned" % (n, fl.fired))
                    now[n] = [data]
                    w.probe("stored")
                else:
                    if not hard:
                        w.fail("raised", "writing %s: %r" % (n, o))
                    w.probe("fault-reported")
                    now[n] = before + [data]
                if hard or empty:
                    audit("after %s of %s %s" % (kind, n, "that failed (%s, %s)" % (fl.fired, o.exc_text) if not o.ok else ""))
                continue
            with armed(op) as fl:
                if kind == "read":
                    o = w.call("read %s %s" % (n, op[3:]), lambda: slurp(n, op[3], op[4]))
                    cands = now.get(n, [None])
                    if o.ok:
                        if o.value not in cands:
                            w.fail("member-lost", "%s reads as %d bytes %r, stored were %s" % (n, len(o.value), o.value[:30],
                                   [None if c is None else (len(c), c[:30]) for c in cands]))
                    elif o.kind == "ENOENT" and None in cands:
                        if "FileDoesNotExistError" not in o.exc_text:
                            w.fail("wrong-error", "reading the missing member %s: %r" % (n, o))
                    elif not fl.hard:
                        w.fail("member-lost", "reading %s: %r" % (n, o))
                elif kind == "missing":
                    o = w.call("read missing", lambda: slurp("no/such " + n, -1, "rb"))
                    if o.ok or ("FileDoesNotExistError" not in o.exc_text and not fl.hard):
                        w.fail("wrong-error", "reading a missing member: %r" % o)
                elif kind == "md5":
                    o = w.call("md5 " + n, uri(n).md5)
                    cands = now.get(n, [None])
                    if o.ok and o.value not in [hashlib.md5(c).hexdigest() for c in cands if c is not None]:
                        w.fail("md5", "%s: %r" % (n, o))
                    if not o.ok and not fl.hard and not (o.kind == "ENOENT" and None in cands):
                        w.fail("raised", "md5 of %s: %r" % (n, o))
                elif kind == "query":
                    sure, maybe = names_now()
                    for q in ("exists", "isfile", "isdir"):
                        o = w.call("%s %s" % (q, n), getattr(uri(n), q))
                        if not o.ok:
                            if not fl.hard:
                                w.fail("raised", "%s of %s: %r" % (q, n, o))
                            continue
                        want = [False] if q == "isdir" else [True] if n in sure else [False] if n not in maybe else [True, False]
                        if o.value not in want:
                            w.fail("query", "%s(%s) is %s, should be %s" % (q, n, o.value, want))
                elif kind == "list":
                    sure, maybe = names_now()
                    o = w.call("list", w.URI(root).listdir)
                    if not o.ok:
                        if not fl.hard:
                            w.fail("raised", "listing the archive: %r" % o)
                    elif not {m.split("/")[0] for m in sure} <= set(o.value) or not set(o.value) <= {m.split("/")[0] for m in maybe} \
                            or len(set(o.value)) != len(o.value):
                        w.fail("listing", "the archive lists %s, there are %s" % (o.value, sorted(sure)))
                elif kind == "walk":
                    sure, maybe = names_now()

                    def walk():
                        out = []
                        for r, d, fs in w.URI(root).walk():
                            base = r.path.strip("/")
                            out += [(base + "/" + x).strip("/") for x in fs]
                        return out
                    o = w.call("walk", walk)
                    if not o.ok:
                        if not fl.hard:
                            w.fail("raised", "walking the archive: %r" % o)
                    elif not fl.hard and (not sure <= set(o.value) or not set(o.value) <= maybe or len(set(o.value)) != len(o.value)):
                        w.fail("listing", "walking the archive found %s, there are %s" % (o.value, sorted(sure)))
        audit("in the end")
        if local:
            w.registry.cleanup(force=True)
            audit("after reopening")
