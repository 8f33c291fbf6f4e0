"""C13: folder chains made by several threads at once."""
from . import common, trees
from .trees import TOP


class C13Makedirs:
    NAME = "c13_makedirs"

    @staticmethod
    def gen(rng, tier):
        n = rng.choice(["L", "M0", "M1"])
        nt = rng.choice([2, 2, 3, 4])
        nm = ["a", "b", "c"][:rng.choice([1, 2, 3])]
        pre = []
        if rng.random() < 0.4:
            pre = trees.gen_tree(rng, TOP + "/a", rng.choice([0, 2, 4]), nm, links=False, sizes=[3])
        if rng.random() < 0.3:
            pre.append(["f", TOP + "/file", 77, 3])
            if rng.random() < 0.5:
                pre.append(["l", TOP + "/ln", TOP + "/a" if len(pre) > 1 and rng.random() < 0.6 else TOP + "/file"])
        ops = []
        for t in range(nt):
            for _ in range(rng.choice([1, 2, 3, 5])):
                depth = rng.choice([1, 2, 3, 4, 6])
                p = TOP + "/" + "/".join(rng.choice(nm) for _ in range(depth))
                if pre and rng.random() < 0.15:
                    p = TOP + "/" + rng.choice(["file", "ln"]) + rng.choice(["", "/x", "/x/y"])
                r = rng.random()
                if r < 0.7:
                    ops.append([t, "makedirs", p, rng.random() < 0.15])
                else:
                    ops.append([t, "file", p, rng.choice([1, 100, 9000])])
        return {"sim": common.sim_params(rng), "ops": ops,
                "params": {"fs": n, "pre": pre, "fault_p": rng.choice([0, 0, 0.05, 0.2]), "fault_max": rng.choice([1, 3]),
                           "ops": rng.choice([["mkdir"], ["mkdir", "open-create"]])}}

    @staticmethod
    def nontrivial(r):
        return r["switches"] >= 2 and r["probes"].get("made", 0) >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        f = trees.FS(w, pr["fs"])
        with w.quiet():
            f.build(pr["pre"])
        t0 = f.tree
        made = []          # (folder path, who)
        files = {}

        def alone(p):
            """Would it work alone, as far as what was there before decides?"""
            steps = trees.parts(p)
            for k in range(1, len(steps) + 1):
                q = "/" + "/".join(steps[:k])
                if t0.maybe(q, False) is None and not t0.islink(q):
                    try:
                        return t0.walk_to(q, False)[0].kind == "d"
                    except Exception:
                        return False
                if not t0.isdir(q):
                    return False
            return True

        def body(tid, ops):
            for n, op in enumerate(ops):
                p = op[1]
                ok = alone(p)
                m0 = w.disk.faults.mine()
                u = f.uri(p + ("/" if op[0] == "makedirs" and op[2] else ""))
                o = w.call("makedirs " + p, u.makedirs)
                met = w.disk.faults.mine() > m0
                if o.ok and met:
                    w.fail("fault-swallowed", "makedirs of %s met a storage error and returned" % p)
                if o.ok and not ok:
                    w.fail("not-refused", "makedirs of %s returned although a file is in the way" % p)
                if not o.ok and ok and not met:
                    w.fail("raised", "makedirs of %s: %r" % (p, o))
                if not o.ok:
                    continue
                with w.quiet():
                    if not f.uri(p).isdir():
                        w.fail("missing", "makedirs of %s returned, but there is no such folder" % p)
                made.append(p)
                w.probe("made")
                if op[0] == "file":
                    q = p + "/f%d.%d" % (tid, n)
                    data = b"%d.%d " % (tid, n) * (op[2] // 4 + 1)
                    m0 = w.disk.faults.mine()

                    def put():
                        with f.uri(q).open("wb") as h:
                            h.write(data)
                    o = w.call("write " + q, put)
                    met = w.disk.faults.mine() > m0
                    if o.ok:
                        files[q] = data
                    elif not met:
                        w.fail("raised", "writing %s after makedirs of its folder: %r" % (q, o))
        mf = trees.MemFaults(w, f)
        if f.kind == "M" and pr["fault_p"]:
            mf.install(sorted({"/" + "/".join(trees.parts(op[2])[:k]) for op in plan["ops"]
                               for k in range(2, len(trees.parts(op[2])) + 1)}))
        ops = pr["ops"] + ["memory"]
        with w.faults(p=pr["fault_p"], max=pr["fault_max"], ops=ops, kinds=["EIO", "EACCES", "ENOSPC"]):
            common.run_threads(w, plan, body)
        mf.remove()
        now = f.dump()
        for p in made:
            c = real(now, p)
            if now.get(c, ("?",))[0] != "d":
                w.fail("missing", "the folder %s is gone in the end" % p)
        for q, data in sorted(files.items()):
            c = real(now, q)
            if now.get(c) != ("f", data):
                w.fail("lost", "%s does not hold what was written (%s)" % (q, trees.diff({c: now.get(c)}, {c: ("f", data)})))
        for k, v in t0.dump().items():
            k = "/" + k
            if k != TOP and now.get(k) != v:
                w.fail("lost", "%s was there before, now: %s" % (k, now.get(k)))


def real(dump, path):
    """Resolve links to folders in a dump."""
    steps, cur = list(reversed(trees.parts(path))), ""
    n = 0
    while steps:
        c = cur + "/" + steps.pop()
        v = dump.get(c)
        if v is not None and v[0] == "l" and n < 20:
            n += 1
            steps.extend(reversed(trees.parts(v[1])))
            cur = ""
            continue
        cur = c
    return cur
