"""C10: removing files, links and folders."""
from . import common, trees
from .model import Err, Skip
from .trees import TOP


class C10Remove:
    NAME = "c10_remove"

    @staticmethod
    def gen(rng, tier):
        n = rng.choice(["L", "L", "M0", "M1"])
        nm = trees.NAMES[:rng.choice([2, 3, 4])]
        tops = [TOP + "/s", TOP + "/o", TOP]
        es = trees.gen_tree(rng, TOP + "/s", rng.choice([2, 5, 10, 20]), nm, sizes=[0, 5, 100], link_tops=tops)
        es += trees.gen_tree(rng, TOP + "/o", rng.choice([2, 5, 8]), nm, sizes=[0, 5, 100], tag0=500, link_tops=tops)
        # links back up and out, cycles among them
        dirs = [e[1] for e in es if e[0] == "d"]
        for k in range(rng.choice([0, 0, 1, 2, 4])):
            d = rng.choice(dirs)
            es.append(["l", d + "/" + rng.choice(["up", "out", "self", "gone"]),
                       rng.choice([TOP, TOP + "/s", TOP + "/o", d, d + "/self", TOP + "/gone", rng.choice(es)[1]])])
        ops = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            r = rng.random()
            if r < 0.08:
                p = TOP + "/" + "/".join(rng.choice(nm) for _ in range(rng.choice([1, 2, 3])))
            elif r < 0.4:
                p = TOP + "/s"
            else:
                e = rng.choice(es)
                p = e[1]
                if rng.random() < 0.15:
                    # through a link
                    p = p + "/" + rng.choice(nm)
            ops.append([0, "remove", p, rng.random() < 0.7, rng.random() < 0.1])
        if n[0] == "M" and rng.random() < 0.3:
            for _ in range(rng.choice([2, 5])):
                ops.append([1, "outside", rng.choice(["mkdir", "write", "unlink"]), rng.choice(nm)])
        r = rng.random()
        return {"sim": common.sim_params(rng, threads=len({o[0] for o in ops}) > 1), "ops": ops,
                "params": {"fs": n, "entries": es, "fault_p": rng.choice([0.03, 0.1, 0.3]) if r < 0.55 else 0,
                           "fault_max": rng.choice([1, 1, 3]), "sticky": rng.random() < 0.2,
                           "crash_p": rng.choice([0.03, 0.15]) if r > 0.7 and n == "L" else 0}}

    @staticmethod
    def nontrivial(r):
        p = r["probes"]
        return p.get("removed", 0) + p.get("fault-reported", 0) + p.get("crashed", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        f = trees.FS(w, pr["fs"])
        with w.quiet():
            f.build(pr["entries"])
            work = f.uri(TOP + "/work")
            work.makedirs()
            f.tree.makedirs(TOP + "/work")
        many = len({o[0] for o in plan["ops"]}) > 1
        state = {}

        def dump():
            return {k: v for k, v in f.dump().items() if not many or not k.startswith(TOP + "/work/")}

        def judge(op, before, now, slot, verdict, how):
            """before and now below and outside of what is removed"""
            x = {k: v for k, v in before.items() if not trees.below(k, slot)}
            y = {k: v for k, v in now.items() if not trees.below(k, slot)}
            if x != y:
                w.fail("outside", "%s (%s): not inside %s: %s" % (op, how, slot, trees.diff(y, x)))
            for k, v in now.items():
                if trees.below(k, slot) and before.get(k) != v:
                    w.fail("changed", "%s (%s): what is left differs: %s" % (op, how, trees.diff({k: v}, {k: before.get(k)})))

        def body(tid, ops):
            for op in ops:
                if op[0] == "outside":
                    u = work / op[2]
                    # somebody else's folder; nothing of what is removed
                    o = w.call("work " + op[1], lambda: {"mkdir": u.makedirs, "unlink": lambda: u.remove(recursive=True) if u.exists() else None,
                                                         "write": lambda: (u / "x").open("wb").close() if u.isdir() else None}[op[1]]())
                    if not o.ok:
                        w.fail("raised", "%s next to it: %r" % (op, o))
                    continue
                _, p, rec, slash = op
                t = f.tree
                slot = trees.canon(t, p)
                if slot is None or slot in ("/", TOP) or slot.startswith(TOP + "/work"):
                    continue
                before = dump()
                trial = t.clone()
                verdict = "ok"
                steps = trees.parts(p)
                # does the path itself lead through what is to be removed?
                knot = any(trees.below(trees.canon(t, "/" + "/".join(steps[:k])) or "", slot) for k in range(1, len(steps)))
                try:
                    trial.remove(p, rec)
                except Err as e:
                    verdict = e.kind
                except Skip:
                    continue
                if slash and not t.islink(p) and t.isdir(p):
                    p += "/"
                u = f.uri(p)
                state.update(op=op, before=before, slot=slot)
                mf = trees.MemFaults(w, f)
                if f.kind == "M" and pr["fault_p"]:
                    mf.install([p])
                with w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], crash_p=pr["crash_p"]) as fl:
                    o = w.call("remove %s rec=%s" % (p, rec), lambda: u.remove(recursive=rec))
                    mine = fl.mine()
                mf.remove()
                with w.quiet():
                    now = dump()
                state.clear()
                if o.ok:
                    if mine:
                        w.fail("fault-swallowed", "%s met %s and returned" % (op, fl.fired))
                    if verdict != "ok":
                        w.fail("not-refused", "%s returned, should fail with %s" % (op, verdict))
                    w.probe("removed")
                    left = [k for k in now if trees.below(k, slot)]
                    if left:
                        w.fail("left", "%s returned, but %s is left" % (op, left[:4]))
                elif verdict == "ok" and not mine and not knot:
                    w.fail("raised", "%s: %r" % (op, o))
                elif mine:
                    w.probe("fault-reported")
                elif verdict == "ENOENT" and "FileDoesNotExistError" not in o.exc_text and not o.exc_text.startswith("FileNotFound"):
                    w.fail("wrong-error", "%s of something missing: %r" % (op, o))
                judge(op, before, now, slot, verdict, "returned" if o.ok else "raised")
                if not rec or (not o.ok and not mine and not knot):
                    if not o.ok and before != now:
                        w.fail("changed", "%s raised %s, but %s" % (op, o.exc_text, trees.diff(now, before)))
                f.resync(now)
                if many:
                    f.tree.makedirs(TOP + "/work")

        def finale():
            if state:
                judge(state["op"], state["before"], dump(), state["slot"], "", "was killed")
        w.finale = finale
        common.run_threads(w, plan, body)
