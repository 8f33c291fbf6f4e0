"""C20: what the names in an archive make of paths; glob patterns."""
import io
import zipfile

from . import common
from .naming import odd, ZIP_BAD
from .trees import content

PLAIN = ["a", "b", "ab", "aa", "a.b", "b.a", "A", "aab"]


def matches(pat, name):
    """shell patterns, by definition: * ? [abc] [a-c] [!a]"""
    if not pat:
        return not name
    c = pat[0]
    if c == "*":
        return any(matches(pat[1:], name[k:]) for k in range(len(name) + 1))
    if c == "[":
        # a ']' right behind the opening (or the '!') belongs to the set
        k = 1 + (pat[1:2] == "!")
        end = pat.find("]", k + 1)
        if end >= 0:
            if not name:
                return False
            neg, body = pat[1:2] == "!", pat[k:end]
            hit, i = False, 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-":
                    hit = hit or body[i] <= name[0] <= body[i + 2]
                    i += 3
                else:
                    hit = hit or body[i] == name[0]
                    i += 1
            return hit != neg and matches(pat[end + 1:], name[1:])
    if not name:
        return False
    return (c == "?" or c == name[0]) and matches(pat[1:], name[1:])


def gen_names(rng, pool, n):
    """member names of which none is below another one that is a file"""
    files, dirs = set(), set()
    out = []
    for k in range(n):
        p = tuple(rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        if rng.random() < 0.3 and out:
            q = tuple(x for x in rng.choice(out)[0].split("/") if x)
            p = (q[:rng.randrange(len(q) + 1)] + p)[:5]
        isdir = rng.random() < 0.2
        ups = [p[:i] for i in range(1, len(p))]
        if any(u in files for u in ups) or (isdir and p in files) or (not isdir and p in dirs):
            continue
        dirs.update(ups)
        (dirs if isdir else files).add(p)
        out.append(["/".join(p) + ("/" if isdir else ""), k])
    return out


def gen_pattern(rng, pool):
    n = rng.choice(pool)
    k = rng.randrange(len(n) + 1)
    return rng.choice(["*", "?", "??", "*.*", n, n[:k] + "*", "*" + n[k:], n[:k] + "?" + n[k + 1:], "[ab]*", "[!a]*", "[a-b]", "*[!b]", "a*b", "*a*", "**", "",
                       "[a", "a]", "[]a]*", "*.b", "?.?", "[A-Z]*", "[!A-Z]", n + "*", "?" + n])


class C20Names:
    NAME = "c20_names"

    @staticmethod
    def gen(rng, tier):
        pool = list(PLAIN) if rng.random() < 0.7 else PLAIN[:3] + [x for x in (odd(rng) for _ in range(4)) if x not in ZIP_BAD and "?" not in x and "[" not in x]
        pool = rng.sample(pool, rng.choice([2, 3, len(pool)]))
        on = rng.choice(["file", "file", "memory"])
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        for t in range(nt):
            for _ in range(rng.choice([2, 5, 10] if nt == 1 else [2, 4])):
                ops.append([t, rng.choice(["paths"] * 4 + ["list"] * 4 + ["walk", "glob", "glob", "read", "read", "drop"]), rng.randrange(10000), gen_pattern(rng, pool)])
        lists = [gen_names(rng, pool, rng.choice([0, 1, 3, 8, 20] if nt == 1 else [0, 1, 3, 6])) for _ in range(rng.choice([1, 1, 2, 3]))]
        if nt > 1 and len(lists) > 1:
            on = "file"         # there it happens at one instant
        for k in range(len(lists) - 1):
            # another program puts another archive in its place
            ops.insert(rng.randrange(len(ops) + 1), [rng.randrange(nt), "replace", k + 1, ""])
        seen = 0
        for o in ops:
            if o[1] == "replace":
                seen += 1
                o[2] = seen
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=3000000), "ops": ops,
                "params": {"on": on, "lists": lists, "lead": [rng.choice([0, 0, 1, 2]) for _ in lists], "absent": rng.random() < 0.05, "slash": rng.random() < 0.2,
                           "fault_p": rng.choice([0.02, 0.1]) if rng.random() < 0.3 and on == "file" and nt == 1 else 0, "short_p": rng.choice([0, 0.3])}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("classified", 0) >= 4

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        host = "/simdisk/x.zip" if pr["on"] == "file" else "memory:///x.zip"
        many = len({o[0] for o in plan["ops"]}) > 1
        trees = []

        def blob(k):
            """-> bytes of the archive, {path steps: bytes or None (a folder)}"""
            buf = io.BytesIO()
            t = {(): None}
            with zipfile.ZipFile(buf, "w") as z:
                for name, tag in pr["lists"][k]:
                    i = zipfile.ZipInfo("x")
                    lead = pr["lead"][k] == 1 or pr["lead"][k] == 2 and tag % 2
                    i.filename = ("/" if lead else "") + name
                    data = b"" if name.endswith("/") else content(tag + 100 * k, 25)
                    z.writestr(i, data)
                    p = tuple(name.strip("/").split("/"))
                    for j in range(1, len(p)):
                        t[p[:j]] = None
                    t[p] = None if name.endswith("/") else data
            return buf.getvalue(), t

        blobs = [blob(k) for k in range(len(pr["lists"]))]
        span = [0, 0]                # archives that could be seen: first, last

        def put(k):
            if pr["on"] == "file":
                # as a whole, under its name
                w.disk.put_file("/simdisk/new.zip", blobs[k][0])
                d = w.disk.get("/simdisk", follow=True)
                d.entries["x.zip"] = d.entries.pop("new.zip")
            else:
                with w.quiet():
                    u = w.URI("memory:///new.zip")
                    with u.open("wb") as h:
                        h.write(blobs[k][0])
                    w.URI(host).exists() and w.URI(host).remove()
                    u.move(w.URI(host))

        if pr["absent"]:
            blobs = [(None, {(): None})]
        else:
            put(0)
        root = w.URI("zip://((%s))/" % host)

        def at(p):
            u = root
            for n in p:
                u = u / n
            if pr["slash"] and p and len(p) % 2 == 0:
                u = u / ""
            return u

        def kids(t, p):
            return sorted({q[len(p)] for q in t if q[:len(p)] == p and len(q) > len(p)})

        def body(tid, ops):
            for kind, r, pat in ops:
                if kind == "replace":
                    if pr["absent"]:
                        continue
                    # in the order of time, whichever thread does it
                    r = span[1] = span[1] + 1
                    with w.quiet():
                        put(r)
                    if not many:
                        span[0] = r
                    continue
                first = span[0]
                base = blobs[span[1]][1]
                everything = sorted(set(base))
                p = everything[r % len(everything)]
                with w.faults(p=pr["fault_p"], max=2, short_p=pr["short_p"]) as fl:
                    def could(pred):
                        """is it right for one of the archives that were there meanwhile?"""
                        return any(pred(blobs[k][1]) for k in range(first, span[1] + 1))

                    if kind == "paths":
                        near = [p] + [p[:-1] + (p[-1] + "b",), p[:-1] + (p[-1][:-1],), p + ("a",), p[:-1], ("a",) + p, p[1:], p[:-1] + ("b",)] if p else [("zz",), ()]
                        if many:
                            near = near[r % 3:r % 3 + 2]
                        for q in near:
                            if q and not all(x.strip(".") for x in q):
                                continue
                            if pr["slash"] and q and len(q) % 2 == 0 and base.get(q) is not None:
                                continue      # a file with a slash behind
                            for f, want in (("exists", lambda t: q in t), ("isfile", lambda t: t.get(q) is not None), ("isdir", lambda t: q in t and t[q] is None),
                                            ("islink", lambda t: False)):
                                o = w.call("%s %s" % (f, "/".join(q)), getattr(at(q), f))
                                if not o.ok:
                                    if not fl.hard:
                                        w.fail("raised", "%s of %r: %r" % (f, q, o))
                                elif not could(lambda t: want(t) is o.value or pr["slash"] and q and len(q) % 2 == 0 and t.get(q) is not None):
                                    w.fail("classified", "%s of %r is %r; the names are %s" % (f, q, o.value, [n for n, _ in pr["lists"][span[1]]]))
                                w.probe("classified")
                    elif kind == "list":
                        o = w.call("list %s" % "/".join(p), at(p).listdir)
                        if o.ok:
                            if not could(lambda t: list(o.value) == kids(t, p)):
                                w.fail("children", "%r lists %r, there are %r; the names are %s" % (p, o.value, kids(base, p), [n for n, _ in pr["lists"][span[1]]]))
                        elif not fl.hard and not could(lambda t: t.get(p, b"") is not None):
                            w.fail("raised", "listing %r: %r; the names are %s" % (p, o, [n for n, _ in pr["lists"][span[1]]]))
                    elif kind == "walk":
                        if many:
                            continue      # looks more than once
                        o = w.call("walk", lambda: [(tuple(x for x in d.path.split("/") if x), list(a), list(b)) for d, a, b in root.walk(topdown=bool(r % 2))])
                        if o.ok and not fl.hard:
                            got = {d: (a, b) for d, a, b in o.value}
                            want = {d: ([n for n in kids(base, d) if base[d + (n,)] is None], [n for n in kids(base, d) if base[d + (n,)] is not None])
                                    for d in base if base[d] is None}
                            if got != want or len(got) != len(o.value):
                                w.fail("children", "a walk reports %s; the names are %s" % (sorted(got.items()), [n for n, _ in pr["lists"][span[1]]]))
                        elif not o.ok and not fl.hard:
                            w.fail("raised", "walking: %r" % o)
                    elif kind == "glob":
                        if base.get(p, b"") is not None:
                            continue
                        o = w.call("glob %r in %s" % (pat, "/".join(p)), at(p).glob, pat)
                        if o.ok:
                            got = sorted(u.last() for u in o.value)
                            if not could(lambda t: got == [n for n in kids(t, p) if matches(pat, n)]):
                                w.fail("glob", "%r in %r matches %r, there are %r" % (pat, p, got, kids(base, p)))
                            for u in o.value:
                                if tuple(x for x in u.path.split("/") if x) != p + (u.last(),):
                                    w.fail("glob", "%r in %r gives %s" % (pat, p, u))
                        elif not fl.hard and not could(lambda t: t.get(p, b"") is not None):
                            w.fail("raised", "glob %r in %r: %r" % (pat, p, o))
                    elif kind == "read":
                        def slurp():
                            with at(p).open("rb") as h:
                                return h.read()
                        o = w.call("read %s" % "/".join(p), slurp)
                        if o.ok:
                            if not could(lambda t: t.get(p) == o.value):
                                w.fail("content", "%r reads %r, stored is %r" % (p, o.value, base.get(p)))
                        elif not fl.hard and not (could(lambda t: t.get(p) is None) and o.kind == "ENOENT"):
                            w.fail("raised", "reading %r: %r; the names are %s" % (p, o, [n for n, _ in pr["lists"][span[1]]]))
                    elif kind == "drop" and pr["on"] == "file":
                        w.registry.cleanup(force=True)
        common.run_threads(w, plan, body)


class C20Glob:
    """glob on folders that change meanwhile."""
    NAME = "c20_glob"

    @staticmethod
    def gen(rng, tier):
        pool = list(PLAIN) + [x for x in (odd(rng) for _ in range(3)) if "?" not in x]
        nt = rng.choice([1, 2, 3])
        ops = []
        for t in range(nt):
            for _ in range(rng.choice([2, 5, 10])):
                ops.append([t, rng.choice(["glob"] * 3 + ["add", "rm"]), rng.choice(pool), gen_pattern(rng, pool), rng.random() < 0.3])
        return {"sim": common.sim_params(rng, threads=nt > 1), "ops": ops,
                "params": {"fs": rng.choice(["L", "M"]), "first": rng.sample(pool, rng.randrange(len(pool) + 1)), "top": rng.random() < 0.3,
                           "fault_p": rng.choice([0.05, 0.2]) if rng.random() < 0.3 else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("globs", 0) >= 2

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        if pr["fs"] == "L":
            w.disk.put_dir("/simdisk/g")
            base = w.URI("/simdisk/g")
        else:
            base = w.URI("memory:///") if pr["top"] else w.URI("memory:///g")
            base.makedirs()
        there = {}           # name -> [from, to] sure; changes are bracketed
        log = []             # (t0, t1, name, present) of changes
        with w.quiet():
            for n in pr["first"]:
                (base / n).open("wb").close()
                there[n] = True
        state = {n: True for n in pr["first"]}
        busy = {}

        def body(tid, ops):
            for kind, n, pat, folder in ops:
                if kind == "glob":
                    log_at = len(log)
                    sure0 = {k for k, v in state.items() if v}
                    maybe0 = set(busy.values())
                    with w.faults(p=pr["fault_p"], max=1, ops=["listdir"]) as fl:
                        o = w.call("glob %r" % pat, base.glob, pat)
                        mine = fl.mine()
                    w.probe("globs")
                    changed = {k for k in log[log_at:]} | maybe0 | set(busy.values())
                    sure = {k for k in sure0 if k not in changed and matches(pat, k)}
                    maybe = {k for k in sure0 | changed if matches(pat, k)}
                    if not o.ok:
                        if not mine:
                            w.fail("raised", "glob %r: %r" % (pat, o))
                        continue
                    if mine:
                        w.fail("fault-swallowed", "glob %r met %s" % (pat, fl.fired))
                    got = [u.last() for u in o.value]
                    if len(set(got)) != len(got) or not sure <= set(got) or not set(got) <= maybe:
                        w.fail("glob", "%r matches %r, there are %r (and perhaps %r)" % (pat, got, sorted(sure0), sorted(changed)))
                    continue
                if n in busy.values():
                    continue
                busy[tid] = n
                u = base / n
                if kind == "add" and not state.get(n):
                    o = w.call("add %r" % n, lambda: u.mkdir() if folder else u.open("wb").close())
                    if not o.ok:
                        w.fail("raised", "adding %r: %r" % (n, o))
                    state[n] = True
                elif kind == "rm" and state.get(n):
                    o = w.call("remove %r" % n, u.remove)
                    if not o.ok:
                        w.fail("raised", "removing %r: %r" % (n, o))
                    state[n] = False
                log.append(n)
                del busy[tid]
        common.run_threads(w, plan, body)
