"""C14: walking."""
from . import common, trees
from .model import Err, Skip
from .trees import TOP


class C14Walk:
    NAME = "c14_walk"

    @staticmethod
    def gen(rng, tier):
        n = rng.choice(["L", "L", "M0", "M0", "M1", "ZL", "ZM"])
        nm = trees.NAMES[:rng.choice([2, 3, 4])] + rng.choice([[], [" x", "b.c"], ["x" * 40, "\u00e4"]])
        many = rng.choice([3, 8, 15, 30])
        if n[0] == "Z":
            es = [e for e in trees.gen_tree(rng, TOP + "/s", many, nm, links=False, sizes=[0, 5]) if e[0] == "f"]
        else:
            tops = [TOP + "/s", TOP + "/o"]
            es = trees.gen_tree(rng, TOP + "/s", many, nm, sizes=[0, 5], links=rng.random() < 0.7, link_tops=tops)
            es += trees.gen_tree(rng, TOP + "/o", rng.choice([2, 5, 10]), nm, sizes=[0, 5], tag0=500, links=rng.random() < 0.3, link_tops=tops)
        dirs = sorted({e[1] for e in es if e[0] == "d"}) or [TOP + "/s"]
        nt = rng.choice([1, 1, 2, 3]) if n[0] != "Z" else 1
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            start = rng.choice([TOP + "/s", TOP + "/s", rng.choice(dirs), rng.choice(es)[1] if es else TOP])
            ops.append([0, "walk", start, rng.random() < 0.6, rng.random() < 0.5,
                        rng.choice(["none", "none", "prune", "reverse", "stop"]), rng.sample(nm, min(2, len(nm))), rng.random() < 0.15])
        for t in range(1, nt):
            for k in range(rng.choice([3, 6, 12])):
                d = rng.choice(dirs)
                ops.append([t, "change", rng.choice(["file", "file", "link", "dir", "rm", "rm", "deep"]), d, "v%d" % rng.randrange(4), k])
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=4000000), "ops": ops,
                "params": {"fs": n, "entries": es, "fault_p": rng.choice([0, 0, 0.05, 0.2]) if nt == 1 else 0,
                           "fault_max": rng.choice([1, 3]), "sticky": rng.random() < 0.2}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("folders", 0) >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        f = trees.FS(w, pr["fs"])
        with w.quiet():
            blob = f.build(pr["entries"])
            if blob is not None:
                host = trees.FS(w, "L" if pr["fs"] == "ZL" else "M0")
                host.build([])
                host.put("/simdisk/arch/x.zip", blob)
        many = len({o[0] for o in plan["ops"]}) > 1
        t = f.tree
        ever = {}          # folder -> names that volatile entries ever had in it

        def expect(start, topdown, follow, how, names):
            """what is to be reported: [(rel, dirs, others)]"""
            if follow and t.cyclic(start):
                raise Skip()
            if t.node(start).kind != "d":
                raise Err("ENOTDIR")
            out = []

            def rec(path, rel):
                ns = t.listdir(path)
                dirs = [x for x in ns if t.isdir(path + "/" + x)]
                others = [x for x in ns if x not in dirs]
                at = [rel, list(dirs), others]
                if topdown:
                    out.append(at)
                    if how == "prune":
                        dirs = [x for x in dirs if x not in names]
                    elif how == "reverse":
                        dirs = dirs[::-1]
                for d in dirs:
                    if follow or not t.islink(path + "/" + d):
                        rec(path + "/" + d, rel + "/" + d if rel else d)
                if not topdown:
                    out.append(at)
            rec(start.rstrip("/"), "")
            return out

        def body(tid, ops):
            for op in ops:
                if op[0] == "change":
                    change(tid, op)
                    continue
                _, start, topdown, follow, how, names, slash = op
                try:
                    want = expect(start, topdown, follow, how, names)
                except Skip:
                    continue
                except Err as e:
                    want = e
                u = f.uri(start + ("/" if slash and f.kind != "Z" and t.isdir(start) and not t.islink(start) else ""))
                base = u.path.rstrip("/")
                got = []

                def walk():
                    for root, dirs, others in u.walk(topdown=topdown, followlinks=follow):
                        p = root.path
                        if not (p == base or p.rstrip("/") == base or p.startswith(base + "/")):
                            w.fail("elsewhere", "walking %s reported the folder %s" % (start, p))
                        got.append([p[len(base):].strip("/"), list(dirs), list(others)])
                        # the entries can be addressed
                        if topdown and how == "prune":
                            dirs[:] = [x for x in dirs if x not in names]
                        elif topdown and how == "reverse":
                            dirs.reverse()
                        if how == "stop" and len(got) == 2:
                            return
                with w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], ops=["listdir", "open", "read"]) as fl:
                    o = w.call("walk %s topdown=%s follow=%s %s" % (start, topdown, follow, how), walk)
                    hard = fl.hard
                w.probe("folders", len(got))
                if isinstance(want, Err):
                    if o.ok and got:
                        w.fail("not-refused", "walking %s, which is no folder, reported %s" % (start, got[:3]))
                    continue
                if hard and o.ok and not (how == "stop"):
                    w.fail("fault-swallowed", "walking %s met %s and ended normally after %d folders" % (start, fl.fired, len(got)))
                if not o.ok and not hard:
                    w.fail("raised", "walking %s: %r" % (start, o))
                if not o.ok:
                    w.probe("fault-reported")
                check(op, want, got, complete=o.ok and how != "stop", start=start, hard=hard)

        def check(op, want, got, complete, start, hard):
            seen = [g[0] for g in got]
            if len(set(seen)) != len(seen):
                w.fail("twice", "%s reported %s more than once" % (op, [x for x in seen if seen.count(x) > 1][:3]))
            wd = {x[0]: x for x in want}
            extra = []
            for rel, dirs, others in got:
                names = dirs + others
                if len(set(names)) != len(names):
                    w.fail("twice", "%s: in %r the entries %s" % (op, rel, names))
                if rel not in wd:
                    if any(c.startswith("v") for c in rel.split("/")) and many:
                        continue
                    w.fail("phantom", "%s reported the folder %r" % (op, rel))
                _, d, x = wd[rel]
                if many:
                    path = trees.canon(t, start.rstrip("/") + ("/" + rel if rel else "")) or ""
                    for _ in range(20):
                        nd = t.maybe(path, False)
                        if nd is None or nd.kind != "l":
                            break
                        path = trees.canon(t, nd.target) or ""
                    vol = [n for n in names if n.startswith("v")]
                    never = [n for n in vol if n not in ever.get(path, ())]
                    if never:
                        w.fail("phantom", "%s reported %s in %r, where nobody made it" % (op, never, rel))
                    dirs = [n for n in dirs if not n.startswith("v")]
                    others = [n for n in others if not n.startswith("v")]
                if dirs != d or others != x:
                    w.fail("entries", "%s reported in %r the folders %s and others %s, there are %s and %s" % (op, rel, dirs, others, d, x))
            mine = [x for x in seen if x in wd]
            order = [x[0] for x in want]
            if complete and set(mine) != set(order):
                w.fail("missing", "%s did not report %s" % (op, [x for x in order if x not in mine][:4]))
            topdown = op[2]
            for k, rel in enumerate(mine):
                up = "/".join(rel.split("/")[:-1])
                if rel and up in mine:
                    before = mine.index(up) < k
                    if before != topdown:
                        w.fail("order", "%s reported %r %s its parent" % (op, rel, "after" if before else "before"))
            # nobody changes the order of what is there throughout
            if [x for x in order if x in mine] != mine:
                w.fail("order", "%s reported %s, expected the order %s" % (op, mine[:8], order[:8]))

        def change(tid, op):
            _, kind, d, name, k = op
            # made by this thread only, in folders that are there throughout; a folder is never removed
            # again while it could be walked
            name = "%s.%d" % (name, tid)
            if kind in ("dir", "deep"):
                name += "d%d" % k
            if kind == "link":
                name += "l"
            path = d + "/" + name
            for _ in range(1):
                c = trees.canon(t, d)
                if c is not None:
                    ever.setdefault(c, set()).add(name)
            u = f.uri(path)

            def act():
                if kind == "file":
                    with u.open("wb") as h:
                        h.write(b"v")
                elif kind == "link":
                    if not u.islink():
                        f.uri(TOP + "/nowhere").symlink(u)
                    else:
                        u.remove()
                elif kind == "dir":
                    u.mkdir()
                elif kind == "deep":
                    (u / "v1" / "v2").makedirs()
                    ever.setdefault(c + "/" + name, set()).add("v1")
                    ever.setdefault(c + "/" + name + "/v1", set()).add("v2")
                else:
                    if u.isfile():
                        u.remove()
            o = w.call("change %s %s" % (kind, path), act)
            if not o.ok:
                w.fail("raised", "%s: %r" % (op, o))
        common.run_threads(w, plan, body)
