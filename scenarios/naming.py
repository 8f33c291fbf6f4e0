"""C19: the names that a listing reports, and what joining them addresses."""
import fnmatch
import hashlib
import io
import json
import zipfile

from . import common
from .trees import content

PIECES = ["a", "b", "a", "x.y", "#", "##", "\\", "\\a", "..\\", "((a))", "((", "))", "((a=b))", "%", "%20", "%2f", "%23", "%5C", ".", "..", "...",
          " ", "  ", "\n", "\t", "\u00e9", "e\u0301", "\U0001f600", "@", ":", "C:", "=", "&", "&a=b", "+", ";", ",", "*", "[a]", "~", "$a", "${a}", "$HOME", "%USER%", "!", "'", '"', "|",
          "<", "{0}", "%s", "http:", "file:", "memory:", "-", "_", "\x7f", "\x01", "__inner_part__", "x" * 60]
QUERY = ["?", "?a", "?a=b", "?a=b&c=d", "a?", "??"]
ZIP_BAD = ("\n",)


def odd(rng, pieces=PIECES, must=None):
    while True:
        k = rng.choice([1, 1, 2, 3])
        ps = [rng.choice(pieces) for _ in range(k)]
        if must:
            ps[rng.randrange(k)] = rng.choice(must)
        n = "".join(ps)
        if n not in ("", ".", ".."):
            return n


def readings(n):
    """what a careless reader would take the name for (as steps)"""
    import urllib.parse
    out = set()
    for x in (n.replace("\\", "/"), n.split("#")[0], n.split("?")[0], urllib.parse.unquote(n), n.replace("((", "").replace("))", ""), n.lstrip("."),
              n.strip(), n.replace("+", " "), n.lower(), n.split(";")[0], n.rstrip("#"), n.rstrip("."), n.replace("a", "", 1), n.replace("\\", ""),
              n.lstrip("/."), n.split(":")[-1], n.split("&")[0], n.split("@")[-1], n.lstrip("~"), urllib.parse.quote(n), n.rsplit(".", 1)[0],
              n.replace("((a))", "__inner_part__"), n.replace("__inner_part__", "")):
        steps = tuple(s for s in x.split("/") if s not in ("", "."))
        if steps and ".." not in steps and steps != (n,) and all(len(s.encode()) < 250 for s in steps):
            out.add(steps)
    return sorted(out)


class C19Names:
    NAME = "c19_names"

    @staticmethod
    def gen( rng, tier):
        fs = rng.choice(["L", "L", "L", "M", "M", "ZL", "ZM"])
        names = [odd(rng) for _ in range(rng.choice([1, 2, 4]))] + ["a", "b"]
        es, dirs = {}, [()]
        for k in range(rng.choice([2, 4, 8, 14])):
            d = rng.choice(dirs)
            n = rng.choice(names)
            if d + (n,) in es or len(d) > 3:
                continue
            r = rng.random()
            es[d + (n,)] = ["d"] if r < 0.4 else ["f", k, rng.choice([0, 1, 20, 5000])] if r < 0.9 or fs[0] == "Z" else ["l", 0]
            if r < 0.4:
                dirs.append(d + (n,))
            # what the name must not be taken for
            for alt in rng.sample(readings(n), min(len(readings(n)), rng.choice([0, 1, 3]))):
                for i in range(1, len(alt) + 1):
                    p = d + alt[:i]
                    if p in es and es[p][0] != "d" and i < len(alt):
                        break
                    if p not in es:
                        es[p] = ["f", 100 + k * 10 + i, 30] if i == len(alt) and rng.random() < 0.7 else ["d"]
                        if es[p] == ["d"]:
                            dirs.append(p)
        # links lead to entries
        for p, e in es.items():
            if e[0] == "l":
                e[1] = list(rng.choice(sorted(es)))
        ops = []
        kinds = ["look"] * 5 + ["walk", "glob", "md5"] + ["write"] * 2 + ["new", "mkdir", "makedirs", "remove", "remove", "copy", "copy", "move", "link", "external", "external", "drop", "lock"]
        if fs[0] == "Z":
            kinds = ["look"] * 5 + ["walk", "glob", "md5", "write", "new", "copy", "external", "drop"]
        for k in range(rng.choice([2, 4, 8, 14])):
            ops.append([0, rng.choice(kinds), rng.randrange(1000), rng.randrange(1000), rng.choice(names + [odd(rng)]), rng.randrange(16),
                        k, rng.randrange(1000)])
        return {"sim": common.sim_params(rng, threads=False, step_cap=3000000), "ops": ops,
                "params": {"fs": fs, "entries": [[list(p), e] for p, e in es.items()], "top": rng.choice(["", "n", "n/m", "n/m/"]),
                           "style": rng.randrange(4), "mem": rng.randrange(6), "zipnames": rng.randrange(4),
                           "fault_p": rng.choice([0.02, 0.1]) if rng.random() < 0.3 and fs == "L" else 0, "short_p": rng.choice([0, 0.3])}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("entries", 0) >= 3

    @staticmethod
    def run( w, plan):
        pr = plan["params"]
        fs, style = pr["fs"], pr["style"]
        top = pr["top"]
        TOP = "/simdisk"
        host = "/simdisk/z.zip" if fs == "ZL" else "memory:///z.zip"
        t = {(): ("d",)}            # path -> what is there

        # ---- the real thing --------------------------------------------------
        if fs == "L":
            w.disk.cwd = TOP
            base = [w.URI(TOP + "/" + top), w.URI("file://" + TOP + "/" + top), w.URI("./" + top), w.URI(top or ".")][style]
            droot = TOP + ("/" + top.rstrip("/") if top else "")
            p = TOP
            for c in [x for x in top.split("/") if x]:
                p += "/" + c
                w.disk.put_dir(p)
        elif fs == "M":
            base = [w.URI("memory:///" + top), w.URI("memory:///" + top, inst="z"), w.URI("memory:///" + top + "?inst=q") if top else w.URI("memory:///", inst="q"),
                    w.URI("memory:///") / top if top else w.URI("memory:///"), w.URI("memory:///" + top + "?inst=/x/y.z"),
                    w.URI("memory:///" + top, inst="((z))/q")][pr["mem"]]
            with w.quiet():
                base.makedirs()
        else:
            # in archives the top folder is that of the archive
            top = top.rstrip("/")
            base = w.URI("zip://((%s))/%s" % (host, top))
            droot = None

        def external(path, e):
            """somebody else makes an entry"""
            if fs == "L":
                p = droot + "/" + "/".join(path)
                if e[0] == "d":
                    w.disk.put_dir(p)
                elif e[0] == "f":
                    w.disk.put_file(p, e[1])
                else:
                    w.disk.put_link(p, droot + "/" + "/".join(e[1]))
            elif fs == "M":
                u = at(path, 0)
                if e[0] == "d":
                    u.mkdir()
                elif e[0] == "f":
                    with u.open("wb") as h:
                        h.write(e[1])
                else:
                    at(e[1], 0).symlink(u)

        def archive():
            """somebody else writes the archive"""
            lead = "/" if pr["zipnames"] & 1 else ""
            pre = lead + (top + "/" if top else "")
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w") as z:
                for p in sorted(t):
                    e = t[p]
                    if e[0] == "f":
                        z.writestr(info(pre + "/".join(p)), e[1])
                    elif p and (pr["zipnames"] & 2 or not any(q[:len(p)] == p and len(q) > len(p) for q in t)):
                        z.writestr(info(pre + "/".join(p) + "/"), b"")
            with w.quiet():
                if fs == "ZL":
                    w.disk.put_file(host, buf.getvalue())
                else:
                    with w.URI(host).open("wb") as h:
                        h.write(buf.getvalue())

        def info(name):
            i = zipfile.ZipInfo("x")
            i.filename = name
            return i

        # ---- addressing --------------------------------------------------------
        def at(path, how):
            u = base
            if how & 3 == 1 and path:
                u = base.join(*path)
            elif how & 3 == 2:
                for n in path:
                    u = (u / "a" / n).directory(2) / n
            elif how & 3 == 3:
                for n in path:
                    u = w.URI(u / n)
            else:
                for n in path:
                    u = u / n
            if how & 4 and path:
                d, n = u.split()
                u = d / n
            if how & 8 and path:
                # in two pieces
                k = len(path[-1]) // 2
                u = at(path[:-1], how & 3) / path[-1][:k] + path[-1][k:] if k else at(path[:-1], how & 3) + "/" + path[-1] if len(path) > 1 else u
            return u

        def kids(p):
            return sorted(q[-1] for q in t if q and q[:-1] == p)

        def final(p, hops=0):
            """what is at the end of the links"""
            e = t.get(p)
            while e is not None and e[0] == "l" and hops < 10:
                p = e[1]
                e = t.get(p) if folderly(p) else None
                hops += 1
            return (None, None) if e is None or e[0] == "l" else (p, e)

        def folderly(p):
            return all(t.get(p[:k], ("",))[0] == "d" for k in range(len(p)))

        def bad(what, detail):
            w.fail(what, detail)

        def verify(p, u, what, deep=True):
            """u is to be the entry p"""
            e = t[p]
            q, f = final(p)
            want = {"exists": f is not None, "isfile": f is not None and f[0] == "f", "isdir": f is not None and f[0] == "d", "islink": e[0] == "l"}
            for k in ("exists", "isfile", "isdir", "islink"):
                o = w.call("%s %r" % (k, p), getattr(u, k))
                if not o.ok:
                    if not lenient():
                        bad("raised", "%s: %s of %r: %r" % (what, k, p, o))
                elif o.value is not want[k]:
                    bad("other-entry", "%s: %s of %r is %r, there is %s" % (what, k, p, o, show(e)))
            if f is None:
                return
            if f[0] == "f":
                o = w.call("read %r" % (p,), lambda: slurp(u))
                if not o.ok:
                    if not lenient():
                        bad("raised", "%s: reading %r: %r" % (what, p, o))
                elif o.value != f[1]:
                    bad("other-entry", "%s: %r reads %r, there is %r" % (what, p, o.value[:40], f[1][:40]))
            else:
                o = w.call("list %r" % (p,), u.listdir)
                if not o.ok:
                    if not lenient():
                        bad("raised", "%s: listing %r: %r" % (what, p, o))
                elif sorted(o.value) != kids(q):
                    bad("listing", "%s: %r lists %r, there are %r" % (what, p, o.value, kids(q)))
            if e[0] == "l" and q is not None:
                o = w.call("readlink %r" % (p,), u.readlink)
                if not o.ok:
                    if not lenient():
                        bad("raised", "%s: readlink %r: %r" % (what, p, o))
                elif deep and t[e[1]][0] != "l":
                    verify(e[1], o.value, what + ", what readlink returned", False)
            w.probe("entries")

        def slurp(u):
            with u.open("rb") as h:
                return h.read()

        def show(e):
            return "nothing" if e is None else e[0] if e[0] == "d" else "a file of %r" % e[1][:30] if e[0] == "f" else "a link to %r" % (e[1],)

        fl = [None]

        def lenient():
            return fl[0] is not None and fl[0].hard > 0

        def dump():
            out = {}
            if fs == "L":
                for k, v in w.disk.tree(droot).items():
                    if v[0] == "l":
                        v = ("l", tuple(x for x in v[1][len(droot):].split("/") if x)) if v[1].startswith(droot) else v
                    out[tuple(k.split("/")) if k else ()] = v
                return out

            def rec(u, p):
                out[p] = ("d",)
                for n in u.listdir():
                    c, q = u / n, p + (n,)
                    if c.islink():
                        out[q] = ("l", None)
                    elif c.isdir():
                        rec(c, q)
                    elif c.isfile():
                        out[q] = ("f", slurp(c))
                    else:
                        out[q] = ("?",)
            with w.quiet(), w.no_faults():
                rec(base, ())
            return out

        def compare(what, leave=()):
            got = dump()
            for k in sorted(set(got) | set(t)):
                if any(k[:len(p)] == p for p in leave):
                    continue
                a, b = got.get(k), t.get(k)
                if fs != "L" and b is not None and b[0] == "l":
                    b = ("l", None)
                if a != b:
                    bad("tree", "%s: at %r there is %s, should be %s" % (what, k, show(a) if a is None or len(a) > 1 and a[1] is not None or a[0] == "d" else a, show(t.get(k))))
            return got

        def choose(r, want=None, top_too=False):
            ps = sorted(p for p in t if (p or top_too) and (want is None or t[p][0] in want))
            return ps[r % len(ps)] if ps else None

        # ---- set-up ---------------------------------------------------------
        for p, e in pr["entries"]:
            p = tuple(p)
            if p in t or t.get(p[:-1], ("",))[0] != "d":
                continue
            t[p] = ("d",) if e[0] == "d" else ("f", content(e[1], e[2])) if e[0] == "f" else ("l", tuple(e[1]))
        for p in [p for p in t if t[p][0] == "l" and (t[p][1] not in t or t[p][1][:len(p)] == p)]:
            del t[p]
        made = set()
        with w.quiet():
            if fs[0] == "Z":
                archive()
            else:
                for p in sorted(t):
                    if p and t[p][0] != "l":
                        external(p, t[p])
                for p in sorted(t):
                    if p and t[p][0] == "l":
                        external(p, t[p])
        compare("at first")

        for op in plan["ops"]:
            _, kind, r1, r2, name, how, tag, r3 = op
            what = "%s %s" % (kind, op[2:])
            faulty = pr["fault_p"] if kind in ("look", "walk", "glob", "md5", "remove", "write", "mkdir") else 0
            with w.faults(p=faulty, max=2, short_p=pr["short_p"] if faulty else 0) as f_:
                fl[0] = f_
                touched = None
                if kind == "look":
                    p = choose(r1, "d", True)
                    u = at(p, how)
                    o = w.call("list %r" % (p,), u.listdir)
                    if not o.ok:
                        if not lenient():
                            bad("raised", "%s: listing %r: %r" % (what, p, o))
                    else:
                        if sorted(o.value) != kids(p):
                            bad("listing", "%s: %r lists %r, there are %r" % (what, p, o.value, kids(p)))
                        for n in o.value:
                            v = at(p, how).join(n) if how & 4 else u / n
                            if (v.last(), v.basename(), v.split()[1]) != (n, n, n):
                                bad("other-name", "%s: last, basename, split()[1] of %r below %r are %r, %r, %r" % (
                                    what, n, p, v.last(), v.basename(), v.split()[1]))
                            if "".join(v.splitext()) != n:
                                bad("other-name", "%s: splitext of %r is %r" % (what, n, v.splitext()))
                            verify(p + (n,), v, what)
                            verify(p + (n,), at(p + (n,), how), what + " (how %d)" % how)
                            if kids(p):
                                o2 = w.call("parent", v.directory().listdir)
                                if o2.ok and sorted(o2.value) != kids(p) or not o2.ok and not lenient():
                                    bad("other-entry", "%s: the folder of %r lists %r, there are %r" % (what, p + (n,), o2, kids(p)))
                elif kind == "walk":
                    p = choose(r1, "d", True)

                    def walk():
                        out, seen = {}, []
                        for root, ds, ns in at(p, how).walk(followlinks=False, topdown=bool(r2 % 2)):
                            seen.append((root, list(ds), list(ns)))
                        return seen
                    o = w.call("walk %r" % (p,), walk)
                    if not o.ok:
                        if not lenient():
                            bad("raised", "%s: %r" % (what, o))
                    else:
                        inside = [q for q in t if q[:len(p)] == p and t[q][0] == "d"]
                        # the order of names is the order of the paths
                        if len(o.value) != len(inside):
                            bad("listing", "%s: a walk of %r found %d folders, there are %d" % (what, p, len(o.value), len(inside)))
                        left = {}
                        for q in inside:
                            left.setdefault(tuple(kids(q)), []).append(q)
                        for root, ds, ns in o.value:
                            here = left.get(tuple(sorted(ds + ns)))
                            if not here:
                                bad("listing", "%s: the walk reports a folder %s of %r" % (what, root, sorted(ds + ns)))
                            got = w.call("list root", root.listdir)
                            if got.ok and sorted(got.value) != sorted(ds + ns) or not got.ok and not lenient():
                                bad("other-entry", "%s: the folder %s was reported with %r and lists %r" % (what, root, sorted(ds + ns), got))
                            if len(here) == 1:
                                for n in ds + ns:
                                    verify(here[0] + (n,), root / n, what)
                elif kind == "glob":
                    p = choose(r1, "d", True)
                    pat = ["*", name[:1] + "*", "*a*", "[!a]*", "*\\*", "*#"][r2 % 6]
                    if "[" in name[:1] or "?" in name[:1]:
                        pat = "*"
                    o = w.call("glob %r" % pat, at(p, how).glob, pat)
                    want = [n for n in kids(p) if fnmatch.fnmatch(n, pat)]
                    if not o.ok:
                        if not lenient():
                            bad("raised", "%s: %r" % (what, o))
                    else:
                        if len(o.value) != len(want):
                            bad("listing", "%s: glob(%r) below %r is %r, there are %r" % (what, pat, p, o.value, want))
                        for n, u in zip(want, sorted(o.value, key=lambda u: u.last())):
                            verify(p + (n,), u, what)
                elif kind == "md5":
                    p = choose(r1, "f")
                    if p is not None:
                        o = w.call("md5 %r" % (p,), at(p, how).md5)
                        if o.ok and o.value != hashlib.md5(t[p][1]).hexdigest():
                            bad("other-entry", "%s: md5 of %r is not that of %r" % (what, p, t[p][1][:30]))
                        if not o.ok and not lenient():
                            bad("raised", "%s: %r" % (what, o))
                elif kind in ("write", "new", "mkdir", "lock"):
                    d = choose(r1, "d", True)
                    p = choose(r1, "f") if kind in ("write", "lock") else d + (name,)
                    if p is None or kind in ("new", "mkdir") and p in t:
                        continue
                    data = content(1000 + tag, [0, 3, 40, 9000][r2 % 4])
                    u = at(p, how)

                    def act():
                        if kind == "mkdir":
                            u.mkdir()
                        elif kind == "lock":
                            with u.lock() as h:
                                h.write("x%d" % tag)
                        else:
                            with u.open("wb") as h:
                                h.write(data)
                    o = w.call("%s %r" % (kind, p), act)
                    if o.ok:
                        if kind == "mkdir":
                            t[p] = ("d",)
                        elif kind == "lock":
                            old = t[p][1]
                            touched = p
                        else:
                            t[p] = ("f", data)
                        if kind != "lock":
                            verify(p, at(p, (how + 1) % 8), what)
                    elif not lenient():
                        bad("raised", "%s: %s %r: %r" % (what, kind, p, o))
                    else:
                        touched = p
                elif kind == "makedirs":
                    p = choose(r1, "d", True) + (name, name)
                    if t.get(p[:-1], ("d",))[0] != "d" or t.get(p, ("d",))[0] != "d":
                        continue
                    o = w.call("makedirs %r" % (p,), at(p, how).makedirs)
                    if not o.ok:
                        bad("raised", "%s: makedirs %r: %r" % (what, p, o))
                    t[p[:-1]] = t[p] = ("d",)
                elif kind == "remove":
                    p = choose(r1)
                    if p is None:
                        continue
                    if any(e[0] == "l" and e[1][:len(p)] == p and q[:len(p)] != p for q, e in t.items()):
                        continue        # would leave a dangling link
                    o = w.call("remove %r" % (p,), lambda: at(p, how).remove(recursive=True))
                    if o.ok:
                        for q in [q for q in t if q[:len(p)] == p]:
                            del t[q]
                    elif not lenient():
                        bad("raised", "%s: removing %r: %r" % (what, p, o))
                    else:
                        touched = p
                elif kind in ("copy", "move"):
                    p = choose(r1, "fd")
                    d = choose(r2, "d", True)
                    if p is None:
                        continue
                    q = d + (name,)
                    if fs[0] == "Z" and t[p][0] == "d":
                        continue
                    sub = [x for x in t if x[:len(p)] == p]
                    if q in t or q[:len(p)] == p or p[:len(q)] == q or any(t[x][0] == "l" for x in sub):
                        continue
                    if kind == "move" and any(e[0] == "l" and e[1][:len(p)] == p for e in t.values()):
                        continue
                    if fs[0] == "Z":
                        # there are no copies within an archive
                        o = w.call("copy out %r" % (p,), lambda: at(p, how).copy(w.URI("memory:///") / name))
                        if not o.ok:
                            bad("raised", "%s: copying %r to a memory file system: %r" % (what, p, o))
                        got = w.call("read copy", lambda: slurp(w.URI("memory:///") / name))
                        if not got.ok or got.value != t[p][1]:
                            bad("other-entry", "%s: the copy of %r reads %r" % (what, p, got))
                        (w.URI("memory:///") / name).remove()
                        continue
                    if kind == "move":
                        o = w.call("move %r %r" % (p, q), lambda: at(p, how).move(at(q, (how + 1) % 8)))
                    else:
                        o = w.call("copy %r %r" % (p, q), lambda: at(p, how).copy(at(q, (how + 1) % 8), recursive=t[p][0] == "d"))
                    if not o.ok:
                        bad("raised", "%s: %s %r to %r: %r" % (what, kind, p, q, o))
                    new = {q + x[len(p):]: t[x] for x in sub}
                    if kind == "move":
                        for x in sub:
                            del t[x]
                    t.update(new)
                elif kind == "link":
                    p, d = choose(r1, "fd"), choose(r2, "d", True)
                    q = d + (name,)
                    if p is None or q in t or q[:len(p)] == p:
                        continue
                    o = w.call("symlink %r %r" % (p, q), lambda: at(p, how & 3).symlink(at(q, how)))
                    if not o.ok:
                        bad("raised", "%s: link %r to %r: %r" % (what, q, p, o))
                    if fs == "L" and style >= 2:
                        # a relative target; means something else from there
                        w.disk.put_link(droot + "/" + "/".join(q), droot + "/" + "/".join(p))
                    t[q] = ("l", p)
                elif kind == "external":
                    d = choose(r1, "d", True)
                    p = d + (name,)
                    if p in t:
                        continue
                    t[p] = ("d",) if r2 % 3 == 0 else ("f", content(2000 + tag, 25))
                    with w.quiet():
                        if fs[0] == "Z":
                            archive()
                        else:
                            external(p, t[p])
                elif kind == "drop":
                    if fs in ("L", "ZL"):
                        w.registry.cleanup(force=True)
                if kind == "lock" and touched is not None and o.ok:
                    with w.quiet(), w.no_faults():
                        t[touched] = ("f", slurp_real(w, fs, droot if fs == "L" else None, touched, at, slurp))
                        if ("x%d" % tag).encode() not in t[touched][1]:
                            bad("other-entry", "%s: what was written under the lock of %r isn't there: %r" % (what, touched, t[touched][1][:40]))
                    touched = None
                fl[0] = None
            got = compare("after " + what, [touched] if touched is not None else [])
            if touched is not None:
                # something failed half way
                for q in [q for q in t if q[:len(touched)] == touched]:
                    del t[q]
                for q, e in got.items():
                    if q[:len(touched)] == touched:
                        t[q] = e
                for q in [q for q in t if t[q][0] == "l" and t[q][1] not in t]:
                    return
        if fs == "L" and style >= 2:
            # a dot file in the root folder is not one in the current folder
            w.disk.put_file(TOP + "/.c19 sim", b"x")
            o = w.call("exists /.c19 sim", w.URI("/.c19 sim").exists)
            if not o.ok or o.value is not False:
                bad("other-entry", "/.c19 sim in the root folder is said to exist (%r), there is one in the current folder" % o)


def slurp_real(w, fs, droot, p, at, slurp):
    if fs == "L":
        return w.disk.tree(droot)["/".join(p)][1]
    return slurp(at(p, 0))


class C19Query:
    """Names with the character that begins a query."""
    NAME = "c19_query"

    @staticmethod
    def gen(rng, tier):
        names = sorted({odd(rng, must=QUERY) for _ in range(rng.choice([1, 2]))})
        ops = [[0, n, rng.randrange(4)] for n in names]
        return {"sim": common.sim_params(rng, threads=False), "ops": ops, "params": {}}

    @staticmethod
    def nontrivial(r):
        return r["ops"] >= 3

    @staticmethod
    def run(w, plan):
        d = "/simdisk/q"
        w.disk.put_dir(d)
        here = {}
        for k, (_, n, how) in enumerate(plan["ops"]):
            here[n] = content(k, 20)
            for alt in readings(n)[:how]:
                if len(alt) == 1:
                    here.setdefault(alt[0], content(100 + k * 10 + len(here), 20))
        for n in here:
            w.disk.put_file(d + "/" + n, here[n])
        base = w.URI(d)
        o = w.call("list", base.listdir)
        if not o.ok or sorted(o.value) != sorted(here):
            w.fail("listing", "listed are %r, there are %s" % (o, sorted(here)))
        wrong = []
        for n in sorted(here):
            def slurp():
                with (base / n).open("rb") as h:
                    return h.read()
            o = w.call("read %r" % n, slurp)
            if not o.ok or o.value != here[n]:
                wrong.append((n, o))
        for n, o in wrong:
            if "?" not in n:
                w.fail("other-entry", "%r addresses %r" % (n, o))
        if w.disk.tree(d) != dict({"": ("d",)}, **{n: ("f", c) for n, c in here.items()}):
            w.fail("tree", "the folder was changed")
        if wrong:
            w.fail("question-mark", "the listed name %s addresses %r" % (json.dumps(wrong[0][0]), wrong[0][1]))
