"""C09: moving files and folders."""
from . import common, trees
from .model import Err, Skip
from .trees import TOP


def files_of(tree, path, follow):
    """{rel: bytes} of the files at and below path; with follow, links count as what they lead to. Raises Err if one dangles."""
    out = {}
    n = tree.node(path)
    if n.kind == "f":
        return {"": n.data}
    if follow and tree.cyclic(path):
        raise Skip()

    def rec(n, rel):
        for k, v in n.entries.items():
            if v.kind == "l":
                if not follow:
                    continue
                v = tree.node(v.target)
            if v.kind == "f":
                out[rel + "/" + k] = v.data
            else:
                rec(v, rel + "/" + k)
    rec(n, "")
    return out


class C09Move:
    NAME = "c09_move"

    @staticmethod
    def gen(rng, tier):
        names = ["L", "M0"] + (["M1"] if rng.random() < 0.3 else [])
        nm = trees.NAMES[:rng.choice([2, 3, 4])]
        sizes = rng.choice([[0, 3, 20], [0, 3, 20], [1, 8191, 8192, 8193, 30000], [70000]])
        mount = rng.random() < 0.4
        entries = {}
        many = rng.choice([3, 6, 10, 16])
        for k, n in enumerate(names):
            tops = [TOP + "/s", TOP + "/a"]
            entries[n] = trees.gen_tree(rng, TOP + "/s", many, nm, links=rng.random() < 0.5, sizes=sizes, tag0=1000 * k, link_tops=tops)
            entries[n] += trees.gen_tree(rng, TOP + "/a", rng.choice([0, 3, 8]), nm + ["s"], links=False, sizes=sizes, tag0=1000 * k + 500)
            if n == "L" and mount:
                entries[n] += trees.gen_tree(rng, TOP + "/dev2", rng.choice([0, 3, 8]), nm + ["s"], links=False, sizes=sizes, tag0=9000)
        ops = []

        def src(n):
            es = entries[n]
            if rng.random() < 0.06:
                return TOP + "/" + "/".join(rng.choice(nm) for _ in range(rng.choice([1, 2])))
            e = rng.choice(es)
            return e[1] if rng.random() < 0.75 and e[1] != TOP + "/dev2" else TOP + "/s"

        def dst(n):
            r = rng.random()
            if n == "L" and mount and rng.random() < 0.5:
                return TOP + "/dev2" + rng.choice(["", "/new", "/" + rng.choice(nm), "/" + rng.choice(nm) + "/" + rng.choice(nm)])
            if r < 0.5:
                return TOP + "/" + rng.choice(["a", "new", "b", "b/new", "a/" + rng.choice(nm)])
            return rng.choice(entries[n])[1] + rng.choice(["", "", "/" + rng.choice(nm), "/x/y"])
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = rng.choice(names)
            b = a if rng.random() < 0.5 else rng.choice(names)
            ops.append([0, "move", a, src(a), b, dst(b)])
        kinds = rng.random()
        return {"sim": common.sim_params(rng, threads=rng.random() < 0.35, step_cap=4000000), "ops": ops,
                "params": {"names": names, "entries": entries, "mount": mount,
                           "watcher": rng.random() < 0.5,
                           "fault_p": rng.choice([0, 0.02, 0.08, 0.25]) if kinds < 0.6 else 0,
                           "fault_max": rng.choice([1, 1, 3]), "sticky": rng.random() < 0.2,
                           "styles": [rng.choice([0, 0, 0, 4, 1, 2, 3, 6]), rng.choice([0, 0, 0, 4, 1, 2, 3, 6])],
                           "short_p": rng.choice([0, 0, 0.3]),
                           "crash_p": rng.choice([0.02, 0.1]) if kinds > 0.75 else 0}}

    @staticmethod
    def nontrivial(r):
        p = r["probes"]
        return p.get("moved", 0) + p.get("fault-reported", 0) + p.get("crashed", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        w.disk.cwd = TOP
        fss = {n: trees.FS(w, n) for n in pr["names"]}
        with w.quiet():
            if pr["mount"] and "L" in fss:
                w.disk.mount("dev2")
            for n, f in fss.items():
                f.build(pr["entries"].get(n, []))
        state = {}
        done = [False]

        def has(n, path, data):
            """Is the complete file there (at this instant)?"""
            if n == "L":
                try:
                    i = w.disk.get(path)
                except OSError:
                    return False
                return i.kind == "f" and bytes(i.data) == data
            try:
                u = fss[n].uri(path)
                if not u.isfile():
                    return False
                h = u.open("rb")
                b = h.read()
                h.close()
                return b == data
            except OSError:
                return False

        def instant(when):
            s = state.get("move")
            if s is None:
                return
            with w.quiet(), w.no_faults():
                for rel, data in sorted(s["files"].items()):
                    if not has(s["sn"], s["src"] + rel, data) and not has(s["dn"], s["dst"] + rel, data):
                        # it might have moved on meanwhile
                        if state.get("move") is not s:
                            return
                        w.fail("lost", "%s, %s: %s%s is neither complete at its source nor at its destination %s%s" % (
                            s["op"], when, s["src"], rel, s["dst"], rel))

        def watcher():
            while not done[0]:
                instant("meanwhile")
                w.sleep(0.001)

        def dumps():
            return {n: f.dump() for n, f in sorted(fss.items())}

        def body():
            for op in plan["ops"]:
                _, _, sn, a, dn, b = op
                sf, df = fss[sn], fss[dn]
                st, dt = sf.tree, df.tree
                local = sn == dn == "L"
                before = dumps()
                droot0 = trees.droot_of(sf, a, df, b)
                ca, droot = trees.canon(st, a), trees.canon(dt, droot0)
                if ca is None or droot is None or ca in ("/", TOP, TOP + "/dev2"):
                    continue
                verdict = "ok"
                files = {}
                link = st.islink(a)
                try:
                    src = st.node(a, follow=not local)
                    exists = st.exists(a) or (local and link)
                    if not exists:
                        raise Err("ENOENT")
                    target = dt.maybe(droot, False)
                    if link:
                        verdict = "loose"
                        if not local:
                            src = st.node(a)
                    if src.kind != "l":
                        files = files_of(st, a, not local)
                    if target is not None and target is (src if sf is df else None):
                        verdict = "same"
                    elif target is not None and (target.kind != "f" or src.kind != "f"):
                        verdict = "loose"
                    elif sn == dn and trees.below(droot, ca) and src.kind == "d":
                        verdict = "refuse"
                    elif sn == dn and trees.below(ca, droot):
                        verdict = "loose"
                    else:
                        # a file or a dangling link in the way, or no folder to put it in
                        up = "/".join(droot.split("/")[:-1])
                        if src.kind == "f" and not dt.isdir(up):
                            verdict = "refuse"
                        for k in range(2, len(trees.parts(droot))):
                            x = dt.maybe("/" + "/".join(trees.parts(droot)[:k]), True)
                            if x is not None and x.kind != "d":
                                verdict = "refuse"
                            if x is None and dt.islink("/" + "/".join(trees.parts(droot)[:k])):
                                verdict = "loose"
                    if target is not None and target.kind == "l":
                        continue          # it would be written through that link
                    pp = trees.parts(droot0)
                    for k in range(2, len(pp)):
                        q = "/" + "/".join(pp[:k])
                        if dt.islink(q) and not dt.exists(q):
                            verdict = "loose"
                    if sn == dn and (trees.below(droot0, a) or not local and trees.has_link(src)):
                        verdict = "loose" if verdict == "ok" else verdict
                    if target is not None and verdict == "ok" and local:
                        verdict = "replace"
                    if src.kind == "d" and sf is df and verdict in ("ok", "loose") and files_outside(st, src):
                        # links into what is being moved
                        verdict = "loose"
                except Err:
                    verdict = "refuse"
                    if sf is df and links_into(st, st.maybe(a), droot):
                        verdict = "loose"       # they lead somewhere once it is written
                except Skip:
                    continue
                state["before"] = before
                state["op"] = op
                if verdict != "same":
                    state["move"] = {"op": op, "sn": sn, "dn": dn, "src": ca if st.maybe(ca, False) is not None and not link else a,
                                     "dst": droot, "files": files}
                    if verdict in ("loose", "refuse"):
                        # it might go elsewhere or overwrite itself: only what is left is judged
                        state["move"] = None if verdict == "loose" else state["move"]
                mem = [trees.MemFaults(w, fss[n]) for n in sorted({sn, dn}) if n != "L"]
                if pr["fault_p"]:
                    for m in mem:
                        m.install([p for p in ([a] + [a + r for r in files] + [droot0] + [droot0 + r for r in files] + [
                            "/".join((a + r).split("/")[:-1]) for r in files]) if p != TOP])
                sa, sb = pr.get("styles") or (0, 0)
                su, du = sf.spelled(a, sa), df.spelled(b, sb)
                with w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], short_p=pr["short_p"],
                              crash_p=pr["crash_p"] if local else 0) as fl:
                    w.disk.watch = lambda o, p: instant("at %s %s" % (o, p))
                    try:
                        o = w.call("move %s%s -> %s%s" % (sn, a, dn, b), lambda: su.move(du))
                    finally:
                        w.disk.watch = None
                instant("after it")
                s = state.pop("move", None)
                for m in mem:
                    m.remove()
                now = dumps()
                hard = fl.hard
                if o.ok:
                    w.probe("moved")
                    if verdict == "refuse":
                        w.fail("not-refused", "%s returned although it cannot be done" % op)
                else:
                    w.probe("fault-reported" if hard else "refused")
                    if verdict == "ok" and not hard:
                        w.fail("raised", "%s: %r" % (op, o))
                if verdict == "same":
                    if before != now:
                        w.fail("harmed", "moving %s onto itself: %s" % (op, trees.diff(now[sn], before[sn])))
                    continue
                # nothing else changed
                for n in before:
                    x, y = before[n], now[n]
                    if n == dn:
                        x, y = trees.outside(x, dt, droot), trees.outside(y, dt, droot)
                    if n == sn:
                        x = {k: v for k, v in x.items() if not trees.below(k, ca)}
                        y = {k: v for k, v in y.items() if not trees.below(k, ca)}
                    if x != y:
                        w.fail("harmed", "%s (%s): on %s outside source and destination: %s" % (op, "returned" if o.ok else "raised", n, trees.diff(y, x)))
                if not o.ok and not hard and verdict != "loose":
                    if before != now and verdict == "refuse":
                        bs = {k: v for k, v in before[sn].items() if trees.below(k, ca) and v[0] != "d"}
                        ns = {k: v for k, v in now[sn].items() if trees.below(k, ca) and v[0] != "d"}
                        if bs != ns:
                            w.fail("lost", "%s was refused (%s), but changed its source: %s" % (op, o.exc_text, trees.diff(ns, bs)))
                if not o.ok and verdict == "loose" and not hard:
                    for rel, data in sorted(files.items()):
                        if not has(sn, a + rel, data) and not has(dn, droot + rel, data) and not has(dn, b + rel, data):
                            w.fail("lost", "%s raised (%s), %s%s is gone" % (op, o.exc_text, a, rel))
                if o.ok and verdict in ("ok", "replace"):
                    left = {k: v for k, v in now[sn].items() if trees.below(k, ca) and not (sn == dn and trees.below(k, droot))}
                    if left:
                        w.fail("source-left", "%s returned, at its source is left: %s" % (op, sorted(left)[:5]))
                    got = {k[len(droot):]: v for k, v in now[dn].items() if trees.below(k, droot)}
                    want = {k[len(ca):]: v for k, v in before[sn].items() if trees.below(k, ca)}
                    if not local:
                        want = followed(st, ca)
                    if got != want:
                        w.fail("inexact", "%s: below %s: %s" % (op, droot, trees.diff(got, want, ("is", "should be"))))
                for n, f in fss.items():
                    f.resync(now[n])
            done[0] = True

        def followed(tree, path):
            out = {}

            def rec(n, rel):
                if n.kind == "l":
                    n = tree.node(n.target)
                if n.kind == "f":
                    out[rel] = ("f", n.data)
                else:
                    out[rel] = ("d",)
                    for k, v in n.entries.items():
                        rec(v, rel + "/" + k)
            rec(tree.node(path), "")
            return out

        def files_outside(tree, top):
            """Does a link below top lead to something else below top? (then it is a matter of order)"""
            inner = []

            def rec(n):
                inner.append(n)
                if n.kind == "d":
                    for v in n.entries.values():
                        rec(v)
            rec(top)
            for n in inner:
                if n.kind == "l":
                    try:
                        m = tree.node(n.target)
                    except Err:
                        continue
                    if m in inner:
                        return True
            return False

        def links_into(tree, n, droot):
            if n is None:
                return False
            if n.kind == "l":
                return trees.below(trees.canon(tree, n.target) or n.target, droot) or trees.below(n.target, droot)
            return n.kind == "d" and any(links_into(tree, v, droot) for v in n.entries.values())

        def finale():
            if state.get("move") is not None:
                instant("after it was killed")
            if "before" in state:
                op = state["op"]
                _, _, sn, a, dn, b = op
                ca = trees.canon(fss[sn].tree, a)
                now = fss["L"].dump()
                droot = trees.canon(fss[dn].tree, trees.droot_of(fss[sn], a, fss[dn], b))
                x, y = [{k: v for k, v in trees.outside(d, fss["L"].tree, droot).items() if not trees.below(k, ca)} for d in (state["before"]["L"], now)]
                if x != y:
                    w.fail("harmed", "%s was killed: outside source and destination: %s" % (op, trees.diff(y, x)))
        w.finale = finale
        tasks = [w.spawn(body, "mover")]
        if pr["watcher"] and plan["sim"].get("switch_p"):
            tasks.append(w.spawn(watcher, "watcher"))
        w.join(tasks)
