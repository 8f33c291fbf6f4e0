"""C08: copying within and between memory, local and zip-source file systems."""
import hashlib

from . import common, trees
from .model import Err, Skip
from .trees import Overlap, TOP, content

STAT_OK = ("close",)


def make(w, names, entries, zips):
    """Build the file systems of a plan: {name: FS}"""
    fss = {}
    for n in names:
        fss[n] = trees.FS(w, n)
    for n in names:
        if n[0] != "Z":
            fss[n].build(entries.get(n, []))
    for n in names:
        if n[0] == "Z":
            blob = fss[n].build(entries.get(n, []))
            h = fss["L" if n == "ZL" else "M0"]
            h.put("/simdisk/arch/x.zip", blob)
    return fss


class C08Copy:
    NAME = "c08_copy"

    @staticmethod
    def gen(rng, tier):
        threads = rng.random() < 0.25
        names = ["L", "M0"]
        r = rng.random()
        if r < 0.25:
            names.append("M1")
        elif r < 0.5:
            names.append(rng.choice(["ZL", "ZM"]))
        deep = rng.random() < 0.3
        nm = trees.NAMES[:rng.choice([2, 3, 4])]
        entries = {}
        many = rng.choice([3, 8, 15, 25]) if not deep else 6
        sizes = rng.choice([None, None, [0, 3, 20], [8191, 8192, 8193, 30000]])
        for k, n in enumerate(names):
            if n[0] == "Z":
                entries[n] = [e for e in trees.gen_tree(rng, "", many, nm, links=False, sizes=sizes, tag0=5000)
                              if e[1]]
                # a member may not be a folder as well
                files = {e[1] for e in entries[n] if e[0] == "f"}
                entries[n] = [e for e in entries[n] if e[0] == "f"]
                assert len(files) == len(entries[n])
            else:
                tops = [TOP + "/a", TOP + "/s"]
                entries[n] = trees.gen_tree(rng, TOP + "/s", many, nm, links=rng.random() < 0.7, sizes=sizes, tag0=1000 * k, link_tops=tops)
                entries[n] += trees.gen_tree(rng, TOP + "/a", rng.choice([0, 3, 8, 15]), ["a", "b", "s"], links=rng.random() < 0.3,
                                             sizes=sizes, tag0=1000 * k + 500, link_tops=tops)
        ops = []
        nt = rng.choice([2, 3]) if threads else 1

        def src(n):
            es = entries[n]
            if not es or rng.random() < 0.12:
                return (TOP if n[0] != "Z" else "") + "/" + "/".join(rng.choice(nm) for _ in range(rng.choice([1, 2])))
            if n[0] == "Z":
                e = rng.choice(es)
                p = e[1]
                if rng.random() < 0.5:
                    p = "/".join(p.split("/")[:-1]) or "/"
                return p
            e = rng.choice(es)
            return e[1] if rng.random() < 0.7 else es[0][1]

        def dst(n, t):
            r = rng.random()
            if nt > 1:
                return TOP + "/t%d/%s" % (t, "/".join(rng.choice(nm) for _ in range(rng.choice([1, 2]))))
            if r < 0.4:
                return TOP + "/" + rng.choice(["a", "new", "b", "b/new/c"])
            if r < 0.8 and entries[n]:
                return rng.choice(entries[n])[1] + rng.choice(["", "", "", "/" + rng.choice(nm), "/x/y"])
            return TOP + "/" + "/".join(rng.choice(nm + ["s", "a"]) for _ in range(rng.choice([1, 2, 3])))
        for _ in range(rng.choice([1, 1, 2, 4]) * nt):
            t = rng.randrange(nt)
            a = rng.choice(names)
            b = rng.choice([x for x in names if x[0] != "Z"])
            if rng.random() < 0.4 and a[0] != "Z":
                b = a
            if rng.random() < 0.1:
                ops.append([t, "md5", a, src(a)])
            elif rng.random() < 0.12 and nt == 1 and a[0] != "Z":
                p = src(a)
                ops.append([t, "touch", a, p, rng.choice([0, 0o100, 0o111])])
            else:
                p = src(a)
                to = dst(b, t)
                if nt == 1 and a[0] != "Z" and rng.random() < 0.15:
                    up = p.strip("/").split("/")
                    to = "/" + "/".join(up[:rng.randrange(1, len(up) + 1)])
                ops.append([t, "copy", a, p, b, to, None, rng.random() < 0.6,
                            rng.sample(nm, rng.choice([0, 0, 1, 2])) if rng.random() < 0.4 else None, rng.random() < 0.06])
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=4000000), "ops": ops,
                "params": {"names": names, "entries": entries,
                           "fault_p": rng.choice([0, 0.01, 0.05, 0.2]) if nt == 1 else 0,
                           "fault_max": rng.choice([1, 1, 3]), "sticky": rng.random() < 0.2,
                           "styles": [rng.choice([0, 0, 0, 4, 1, 2, 3, 6]), rng.choice([0, 0, 0, 4, 1, 2, 3, 6])],
                           "short_p": rng.choice([0, 0, 0.3]), "crash_p": rng.choice([0, 0, 0, 0.03]) if nt == 1 else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("copied", 0) + r["probes"].get("refused", 0) + r["probes"].get("fault-reported", 0) >= 1

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        w.disk.cwd = TOP
        with w.quiet():
            fss = make(w, pr["names"], pr["entries"], None)
        single = len({op[0] for op in plan["ops"]}) <= 1
        w.sleep(10)

        def dumps():
            return {n: f.dump(meta=True) for n, f in sorted(fss.items())}

        def judge_outside(op, before, now, trees0, dn, droot, why, src_prot):
            """everything but the destination is as it was"""
            for n in before:
                x, y = before[n], now[n]
                if n == dn and droot is not None:
                    x = trees.outside(x, trees0[n], droot)
                    y = trees.outside(y, trees0[n], droot)
                if x != y:
                    w.fail("harmed", "%s %s: on %s outside the destination %s: %s" % (op, why, n, droot, trees.diff(y, x)))

        state = {}

        def body(tid, ops):
            for op in ops:
                if op[0] == "touch":
                    f = fss[op[1]]
                    if f.tree.isfile(op[2]) and single:
                        w.sleep(5)
                        f.uri(op[2]).set_exec(op[3])
                        f.tree.set_exec(op[2], op[3] & 0o100)
                    continue
                if op[0] == "md5":
                    f = fss[op[1]]
                    try:
                        want = f.tree.md5(op[2])
                    except (Err, Skip):
                        want = None
                    with w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], short_p=pr["short_p"]) as fl:
                        o = w.call("md5 %s %s" % (op[1], op[2]), f.uri(op[2]).md5)
                    if o.ok and fl.hard:
                        w.fail("fault-swallowed", "md5 of %s met %s, returned %r" % (op[2], fl.fired, o))
                    if o.ok and o.value != want or not o.ok and want is not None and not fl.hard:
                        w.fail("md5", "md5 of %s on %s: %r, should be %s" % (op[2], op[1], o, want))
                    continue
                _, sn, a, dn, b, _, follow, ignore, again = op
                sf, df = fss[sn], fss[dn]
                # source and recursion as they make sense, most of the time
                rec = sf.tree.isdir(a) if not again else not sf.tree.isdir(a)
                if sn[0] == "Z" and a == "/":
                    rec = True
                kinds = {n: f.tree.clone() for n, f in fss.items()}
                before = dumps() if single else None
                droot = trees.canon(df.tree, trees.droot_of(sf, a, df, b))
                saved = sf.tree, df.tree
                verdict = "ok"
                pairs = []
                try:
                    _, pairs = trees.copy(sf, a, df, b, rec, follow, set(ignore or ()))
                    if sf is not df:
                        sf.tree = saved[0]
                except Err as e:
                    verdict = "raise"
                except Overlap:
                    verdict = "overlap"
                except Skip:
                    continue
                if droot is None or droot == "/" or not single and not trees.below(droot, TOP + "/t%d" % tid):
                    sf.tree, df.tree = saved
                    continue
                if not single and verdict != "ok":
                    sf.tree, df.tree = saved
                    continue
                sa, sb = pr.get("styles") or (0, 0)
                su, du = sf.spelled(a, sa), df.spelled(b, sb)
                state.update(before=before, trees=kinds, dn=dn, droot=droot, op=op)
                w.sleep(3)
                with w.faults(p=pr["fault_p"], max=pr["fault_max"], sticky=pr["sticky"], short_p=pr["short_p"],
                              crash_p=pr["crash_p"]) as fl:
                    o = w.call("copy %s%s -> %s%s rec=%s follow=%s ignore=%s" % (sn, a, dn, b, rec, follow, ignore),
                               lambda: su.copy(du, recursive=rec, ignore=ignore, followlinks=follow))
                state.clear()
                if not single:
                    if not o.ok:
                        w.fail("raised", "%s: %r" % (op, o))
                    w.probe("copied")
                    continue
                now = dumps()
                hard = fl.hard
                if verdict == "ok":
                    if o.ok and hard:
                        w.fail("fault-swallowed", "%s met %s and returned" % (op, fl.fired))
                    if not o.ok and not hard:
                        w.fail("raised", "%s (recursive=%s): %r" % (op, rec, o))
                    judge_outside(op, before, now, kinds, dn, droot, "returned" if o.ok else "raised", None)
                    if o.ok:
                        w.probe("copied")
                        want, got = df.model(), trees.strip_meta(now[dn])
                        if want != got:
                            w.fail("inexact", "%s (recursive=%s): %s" % (op, rec, trees.diff(got, want, ("is", "should be"))))
                        if sn[0] == dn[0]:
                            for p, q in pairs:
                                p, q = real_of(sf.tree, p), real_of(df.tree, q)
                                x, y = before[sn][p], now[dn][q]
                                if x[2] & 0o111 != y[2] & 0o111 or abs(x[3] - y[3]) > 1e-6:
                                    w.fail("metadata", "%s: %s has mode %o and time %s, its copy %s mode %o and time %s" % (
                                        op, p, x[2], x[3], q, y[2], y[3]))
                    else:
                        w.probe("fault-reported")
                elif verdict == "overlap":
                    # refused or harmless
                    w.probe("refused")
                    dr = droot
                    protected = {n: dict(d) for n, d in before.items()}
                    judge_outside(op, before, now, kinds, dn, droot, "on itself", None)
                    own = trees.canon(kinds[sn], a) or "/"
                    for n, p in protected_paths(sf, a, kinds[sn], follow):
                        if sn == dn and trees.below(p, droot) and not trees.below(p, own):
                            continue     # a link of the source leads to what is overwritten
                        if before[sn].get(p) != now[sn].get(p):
                            w.fail("harmed", "%s: source entry %s: %s" % (op, p, trees.diff({p: now[sn].get(p)}, {p: before[sn].get(p)})))
                else:
                    w.probe("refused")
                    if o.ok:
                        w.fail("not-refused", "%s (recursive=%s) returned although it cannot be done" % (op, rec))
                    judge_outside(op, before, now, kinds, dn, droot, "raised", None)
                for n, f in fss.items():
                    if verdict != "ok" or not o.ok:
                        if n[0] != "Z":
                            exe = f.tree
                            f.resync(trees.strip_meta(now[n]))

        def real_of(tree, path):
            parent, name, node = tree.walk_to(path, True)
            p = trees.canon(tree, path)
            while True:
                n = tree.maybe(p, False)
                if n is None or n.kind != "l":
                    return p
                p = trees.canon(tree, n.target)

        def protected_paths(sf, a, tree, follow):
            """all files (and kept links) that are copied"""
            out = []
            n = tree.maybe(a)
            seen = []

            def rec(n, path):
                if n in seen:
                    return
                seen.append(n)
                if n.kind == "f":
                    out.append((n, path))
                elif n.kind == "d":
                    for k, v in n.entries.items():
                        if v.kind == "l":
                            out.append((v, path + "/" + k))
                            if follow:
                                m = tree.maybe(v.target)
                                if m is not None:
                                    rec(m, real_of(tree, v.target))
                        else:
                            rec(v, path + "/" + k)
            rec(n, real_of(tree, a))
            return out

        def finale():
            if state and state["before"] is not None:
                now = {n: fss[n].dump(meta=True) for n in fss if n == "L"}
                judge_outside(state["op"], {"L": state["before"]["L"]}, now, state["trees"], state["dn"], state["droot"], "was killed", None)
        w.finale = finale
        common.run_threads(w, plan, body)
        if not single:
            with w.quiet():
                now = {n: trees.strip_meta(d) for n, d in dumps().items()}
            for n, f in sorted(fss.items()):
                want = f.model()
                if now[n] != want:
                    w.fail("inexact", "after concurrent copies, on %s: %s" % (n, trees.diff(now[n], want, ("is", "should be"))))


class C08Relative:
    """Links with relative targets, copied as links."""
    NAME = "c08_relative"

    @staticmethod
    def gen(rng, tier):
        names = ["a", ".a", "..a", "b.c"]
        dirs, es = [""], []
        seen = set()
        for k in range(rng.choice([2, 5, 9])):
            d = rng.choice(dirs)
            p = (d + "/" if d else "") + rng.choice(names)
            if p in seen:
                continue
            seen.add(p)
            r = rng.random()
            if r < 0.3:
                es.append(["d", p])
                dirs.append(p)
            elif r < 0.5:
                es.append(["f", p, k])
            else:
                up = "../" * rng.choice([0, 0, 1, 1, 2])
                t = rng.choice([up + rng.choice(names), up + rng.choice(names) + "/" + rng.choice(names), "./" + rng.choice(names), ".", "..", "../..",
                                up + "s/" + rng.choice(names), rng.choice(names) + "/../" + rng.choice(names), rng.choice(names) + "/"])
                es.append(["l", p, t])
        links = [e[1] for e in es if e[0] == "l"]
        ops = []
        for k in range(rng.choice([1, 2, 3])):
            if links and rng.random() < 0.4:
                ops.append([0, "one", rng.choice(links), rng.choice(["there", "new%d" % k])])
            else:
                ops.append([0, "all", "", rng.choice(["there", "new%d" % k])])
        return {"sim": common.sim_params(rng, threads=False), "ops": ops,
                "params": {"entries": es, "fault_p": rng.choice([0, 0, 0.05, 0.2]), "how": rng.randrange(3)}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("links", 0) >= 1

    @staticmethod
    def run(w, plan):
        import posixpath
        pr = plan["params"]
        # so deep that no chain of links leads out of the disk
        TOP = "/simdisk"
        for _ in range(24):
            TOP += "/d"
            w.disk.put_dir(TOP)
        top = TOP + "/t/s"
        w.disk.cwd = TOP
        for d in (TOP + "/t", top, TOP + "/t/there"):
            w.disk.put_dir(d)
        for e in pr["entries"]:
            p = top + "/" + e[1]
            if e[0] == "d":
                w.disk.put_dir(p)
            elif e[0] == "f":
                w.disk.put_file(p, content(e[2], 20))
            else:
                w.disk.put_link(p, e[2])

        def norm(tree):
            return {k: ("l", posixpath.normpath(v[1])) if v[0] == "l" else v for k, v in tree.items()}

        def uri(p):
            return [w.URI(p), w.URI("file://" + p), w.URI("." + p[len(TOP):])][pr["how"]]

        for _, kind, rel, to in plan["ops"]:
            before = w.disk.tree(TOP)
            src, dst = (top + "/" + rel).rstrip("/"), TOP + "/t/" + to
            name = src.rsplit("/", 1)[1]
            if kind == "one":
                kindof = w.call("kinds", lambda: (uri(src).isfile(), uri(src).isdir()))
                if not kindof.ok or kindof.value == (False, False):
                    continue
                rec = kindof.value[1]
            else:
                rec = True
            goes = dst + "/" + name if ("t/" + to) in before else dst
            key = goes[len(TOP) + 1:]
            if key in before:
                continue
            o = w.call("readlink", uri(src).readlink) if kind == "one" else None
            if o is not None and (not o.ok or posixpath.normpath(o.value.path) != posixpath.normpath(before[src[len(TOP) + 1:]][1])):
                w.fail("readlink", "%s leads to %r, readlink gives %r" % (rel, before[src[len(TOP) + 1:]][1], o))
            with w.faults(p=pr["fault_p"], max=1) as fl:
                o = w.call("copy %s to %s" % (rel, to), lambda: uri(src).copy(uri(dst), recursive=rec, followlinks=False))
                mine = fl.mine()
            now = w.disk.tree(TOP)
            want = {k: v for k, v in before.items()}
            have = {k: v for k, v in now.items() if not (k == key or k.startswith(key + "/"))}
            if have != want:
                w.fail("outside", "copying %s to %s: %s" % (rel, to, trees.diff(have, want)))
            if not o.ok:
                if not mine:
                    w.fail("raised", "copying %s to %s: %r" % (rel, to, o))
                w.probe("fault-reported")
                return
            if mine:
                w.fail("fault-swallowed", "copying %s to %s met %s and returned" % (rel, to, fl.fired))
            s = src[len(TOP) + 1:]
            new = norm({k[len(key):]: v for k, v in now.items() if k == key or k.startswith(key + "/")})
            old = norm({k[len(s):]: v for k, v in before.items() if k == s or k.startswith(s + "/")})
            if new != old:
                w.fail("content", "copying %s to %s: %s" % (rel, to, trees.diff(new, old)))
            w.probe("links", sum(v[0] == "l" for v in new.values()))
