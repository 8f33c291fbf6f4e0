"""C05: several handles open at once, in one or more threads."""
from . import common

SIZES = [1, 2, 7, 100, 4096, 8191, 8192, 8193, 20000]


class C05Plain:
    """Handles on files of the memory or local file system."""
    NAME = "c05_plain"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        nf = rng.choice([1, 1, 2, 3])
        small = rng.random() < 0.6
        sizes = SIZES[:4] if small else SIZES
        ops = []
        n = rng.choice([8, 15, 30, 50])
        for _ in range(n):
            t = rng.randrange(nt)
            r = rng.random()
            if r < 0.3:
                ops.append([t, "open", rng.randrange(3), rng.randrange(nf), rng.choice(["rb", "rb", "ab", "ab", "wb"])])
            elif r < 0.8:
                ops.append([t, "io", rng.randrange(3), rng.choice(["rw", "rw", "rw", "line", "next", "lines", "tell", "tell", "cut", "seek", "seek"]),
                            rng.choice(sizes + [-1]), rng.random()])
            else:
                ops.append([t, "close", rng.randrange(3), rng.random() < 0.3])
        local = rng.random() < 0.5
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=4000000), "ops": ops,
                "params": {"backend": "file" if local else "memory", "files": nf,
                           "short_p": rng.choice([0, 0.2, 0.5]) if local else 0,
                           "init": [rng.choice([None, 0, 10, 9000]) for _ in range(nf)]}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("overlap", 0) >= 1 and r["ops"] >= 4

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        base = "/simdisk/" if pr["backend"] == "file" else "memory:///"
        uris = [w.URI(base + "f%d" % i) for i in range(pr["files"])]
        files = []
        for i, n in enumerate(pr["init"]):
            content = None
            if n is not None:
                content = bytes((7 * k) % 251 for k in range(n))
                with uris[i].open("wb") as h:
                    h.write(content)
            files.append({"base": content, "streams": [], "open": 0, "wb": 0, "reads": [], "closed": [], "settling": False,
                          "abs": 0, "epoch": 0})

        def settle(i, why):
            """Nobody has it open: the content is final for now."""
            f = files[i]
            if f["base"] is None and not f["streams"]:
                if uris[i].exists():
                    w.fail("content", "%s: f%d exists though nobody created it" % (why, i))
                return
            try:
                h = uris[i].open("rb")
                real = h.read()
                h.close()
            except Exception as e:
                w.fail("content", "%s: f%d is not readable: %s: %s" % (why, i, type(e).__name__, e))
            b = f["base"] or b""
            if real[:len(b)] != b:
                w.fail("content", "%s: f%d does not begin with the %d bytes written before (%d bytes are there)" % (
                    why, i, len(b), len(real)))
            rest = real[len(b):]
            for k, s in enumerate(f["streams"]):
                got = bytes(x for x in rest if x >> 5 == k + 1)
                if got != bytes(s):
                    w.fail("appended-lost", "%s: f%d holds %d of the %d bytes appended through handle %d%s" % (
                        why, i, len(got), len(s), k, "" if len(got) != len(s) else ", in another order"))
            if len(rest) != sum(map(len, f["streams"])):
                w.fail("content", "%s: f%d has %d bytes, %d were written" % (why, i, len(real), len(b) + sum(map(len, f["streams"]))))
            for pos, data, want, visible, line in f["reads"]:
                if data != real[pos:pos + len(data)]:
                    w.fail("read-wrong", "f%d: a read at %d returned %d bytes that are not those of the file there" % (i, pos, len(data)))
                if line:
                    if b"\n" in data[:-1] or (not data.endswith(b"\n") and len(data) < min(visible - pos, len(real))):
                        w.fail("read-wrong", "f%d: readline at %d returned %r" % (i, pos, data[:80]))
                elif want < 0 and len(data) < visible - pos or want >= 0 and len(data) < min(want, visible - pos) or 0 <= want < len(data):
                    w.fail("read-short", "f%d: read(%d) at %d returned %d bytes, %d were there" % (i, want, pos, len(data), visible))
            f["base"], f["streams"], f["reads"], f["closed"] = real, [], [], []

        def visible(f):
            return len(f["base"] or b"") + sum(len(f["streams"][k]) for k in f["closed"])

        def close(H, i, how):
            f = files[i]
            o = w.call("close f%d %s" % (i, H["mode"]), (lambda: H["h"].__exit__(None, None, None)) if how else H["h"].close)
            if not o.ok:
                w.fail("io-raised", "closing f%d (%s): %r" % (i, H["mode"], o))
            if H["mode"] == "wb":
                f["base"] = bytes(H["data"])
                f["wb"] = 0
            elif H["mode"] == "ab":
                f["closed"].append(H["k"])
                f["abs"] -= 1
            f["open"] -= 1
            if not f["open"]:
                f["settling"] = True
                with w.quiet():
                    settle(i, "all closed")
                f["settling"] = False

        def body(tid, ops):
            slots = {}
            for op in ops:
                s = op[1]
                if op[0] == "open":
                    i, mode = op[2], op[3]
                    f = files[i]
                    if s in slots or f["settling"] or f["wb"] or (mode == "wb" and f["open"]) or (mode == "ab" and len(f["streams"]) >= 7):
                        continue
                    if mode == "rb" and f["base"] is None and not f["closed"]:
                        continue
                    f["open"] += 1
                    if f["open"] > 1:
                        w.probe("overlap")
                    H = {"mode": mode, "pos": 0, "i": i}
                    if mode == "wb":
                        f["wb"] = 1
                        H["data"] = bytearray()
                    elif mode == "ab":
                        H["k"] = len(f["streams"])
                        f["streams"].append(bytearray())
                        f["abs"] += 1
                        f["epoch"] += 1
                        H["epoch"] = f["epoch"] if f["abs"] == 1 else None
                        H["start"] = visible(f)
                    o = w.call("open f%d %s" % (i, mode), uris[i].open, mode)
                    if not o.ok:
                        w.fail("io-raised", "opening f%d (%s): %r" % (i, mode, o))
                    H["h"] = o.value
                    slots[s] = H
                    continue
                H = slots.get(s)
                if H is None:
                    continue
                i, f, h = H["i"], files[H["i"]], H["h"]
                if op[0] == "close":
                    del slots[s]
                    close(H, i, op[2])
                    continue
                kind, n, x = op[2], op[3], op[4]
                if H["mode"] == "rb":
                    if kind == "seek":
                        to = int(x * (visible(f) + 3))
                        rel = n % 2 == 0
                        o = w.call("seek", h.seek, *((to - H["pos"], 1) if rel else (to,)))
                        H["pos"] = to
                    elif kind == "tell":
                        o = w.call("tell", h.tell)
                        if o.ok and o.value != H["pos"]:
                            w.fail("position", "f%d: tell() of a reader that read %d bytes so far, or was set there: %r" % (i, H["pos"], o))
                    elif kind == "lines":
                        v = visible(f)
                        o = w.call("readlines f%d" % i, lambda: list(h.readlines()))
                        if o.ok:
                            for d in o.value:
                                if not isinstance(d, bytes) or not d or b"\n" in d[:-1]:
                                    w.fail("read-wrong", "f%d: readlines returned %r" % (i, o))
                            d = b"".join(o.value)
                            if d or v > H["pos"]:
                                f["reads"].append((H["pos"], d, -1, v, False))
                            H["pos"] += len(d)
                    else:
                        v = visible(f)
                        line = kind in ("line", "next")
                        o = w.call("read f%d %s %d" % (i, kind, n), h.readline if kind == "line" else (lambda: next(h, b"")) if line else
                                   lambda: h.read(n))
                        if o.ok:
                            if not isinstance(o.value, bytes):
                                w.fail("read-wrong", "f%d: a binary read returned %r" % (i, o))
                            if o.value or v > H["pos"]:
                                f["reads"].append((H["pos"], o.value, n, v, line))
                            H["pos"] += len(o.value)
                else:
                    n = abs(n)
                    if H["mode"] == "ab" and kind == "tell":
                        o = w.call("tell", h.tell)
                        if o.ok and H["epoch"] == f["epoch"] and o.value != H["start"] + len(f["streams"][H["k"]]):
                            w.fail("position", "f%d: tell() of the only appender, who began at %d and has written %d bytes: %r" % (
                                i, H["start"], len(f["streams"][H["k"]]), o))
                    elif H["mode"] == "ab":
                        k = H["k"]
                        data = bytes(((k + 1) << 5) + ((len(f["streams"][k]) + j) * 7 + tid) % 31 for j in range(n))
                        o = w.call("append f%d %d" % (i, n), h.write, data)
                        f["streams"][k] += data
                    elif kind == "seek":
                        to = int(x * len(H["data"]))
                        o = w.call("seek", h.seek, *((to - len(H["data"]), 2) if n % 2 == 0 else (to,)))
                        H["pos"] = to
                    elif kind == "tell":
                        o = w.call("tell", h.tell)
                        if o.ok and o.value != H["pos"]:
                            w.fail("position", "f%d: tell() of a writer at %d: %r" % (i, H["pos"], o))
                    elif kind == "cut":
                        to = int(x * (len(H["data"]) + 1))
                        if n % 2 and H["pos"] <= len(H["data"]):
                            to = H["pos"]
                            o = w.call("truncate f%d" % i, h.truncate)
                        else:
                            o = w.call("truncate f%d %d" % (i, to), h.truncate, to)
                        del H["data"][to:]
                    else:
                        data = bytes((H["pos"] * 13 + j * 5 + int(x * 251)) % 256 for j in range(n))
                        o = w.call("write f%d %d" % (i, n), h.write, data)
                        p = H["pos"]
                        if n:
                            H["data"] += bytes(max(0, p - len(H["data"])))
                        H["data"][p:p + n] = data
                        H["pos"] += n
                if not o.ok:
                    w.fail("io-raised", "f%d (%s) %s: %r" % (i, H["mode"], kind, o))
            for s in sorted(slots):
                close(slots[s], slots[s]["i"], False)
        with w.faults(short_p=pr["short_p"]):
            common.run_threads(w, plan, body)
        for i in range(len(files)):
            if not files[i]["open"]:
                settle(i, "in the end")


class C05Zip:
    """Handles on members of one archive."""
    NAME = "c05_zip"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        names = ["a", "b", "d/c", "d/e/f"]
        for _ in range(rng.choice([6, 12, 25])):
            t = rng.randrange(nt)
            r = rng.random()
            if r < 0.35:
                w = rng.random() < 0.5
                nm = rng.choice(names)
                ops.append([t, "open", rng.randrange(3), ("t%d" % t + nm) if w and nt > 1 else
                            ("t%d" % rng.randrange(nt) + nm) if nt > 1 else nm, "wb" if w else "rb"])
            elif r < 0.7:
                ops.append([t, "io", rng.randrange(3), rng.choice([1, 3, 100, 5000, -1]), rng.choice(["rw", "rw", "line"])])
            elif r < 0.9:
                ops.append([t, "close", rng.randrange(3), rng.random() < 0.5])
            else:
                ops.append([t, "list"])
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=4000000), "ops": ops,
                "params": {"on": rng.choice(["file", "memory"]), "short_p": rng.choice([0, 0, 0.3])}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("overlap", 0) >= 1 and r["ops"] >= 4

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        arch = "/simdisk/x.zip" if pr["on"] == "file" else "memory:///x.zip"
        root = "zip://((%s))/" % arch
        with w.URI(root + "first").open("wb") as h:
            h.write(b"0")
        now = {"first": b"0"}     # member -> content
        started = {}              # member -> contents whose storing has begun
        pending = {}
        count = [0]
        n_open = [0]
        single = len({op[0] for op in plan["ops"]}) == 1

        def close(H, how):
            n_open[0] -= 1
            p = H["p"]
            if H["mode"] == "wb":
                c = bytes(H["data"])
                started.setdefault(p, []).append(c)
                pending.setdefault(p, []).append(c)
            o = w.call("close %s %s" % (p, H["mode"]), (lambda: H["h"].__exit__(None, None, None)) if how else H["h"].close)
            if not o.ok:
                w.fail("io-raised", "closing %s (%s): %r" % (p, H["mode"], o))
            if H["mode"] == "wb":
                pending[p].remove(c)
                now[p] = c

        def body(tid, ops):
            slots = {}
            for op in ops:
                if op[0] == "list":
                    before = set(now)
                    o = w.call("list", w.URI(root).listdir)
                    if not o.ok:
                        w.fail("io-raised", "listing: %r" % o)
                    top = {x.split("/")[0] for x in before}
                    maybe = {x.split("/")[0] for x in started} | {"first"}
                    if not top <= set(o.value) or not set(o.value) <= maybe or len(set(o.value)) != len(o.value):
                        w.fail("listing", "listed %s, complete members are %s" % (o.value, sorted(before)))
                    continue
                s = op[1]
                if op[0] == "open":
                    p, mode = op[2], op[3]
                    if s in slots:
                        continue
                    k0, cands = len(started.get(p, [])), [now.get(p)] + list(pending.get(p, []))
                    o = w.call("open %s %s" % (p, mode), w.URI(root + p).open, mode)
                    cands += started.get(p, [])[k0:]
                    if mode == "rb":
                        if not o.ok:
                            if o.kind == "ENOENT" and None in cands:
                                continue
                            w.fail("io-raised", "opening %s: %r" % (p, o))
                        cands = [c for c in cands if c is not None]
                        if not cands:
                            w.fail("read-wrong", "opening the missing member %s succeeded" % p)
                    elif not o.ok:
                        w.fail("io-raised", "opening %s for writing: %r" % (p, o))
                    n_open[0] += 1
                    if n_open[0] > 1:
                        w.probe("overlap")
                    slots[s] = {"p": p, "mode": mode, "h": o.value, "pos": 0, "data": bytearray(), "cands": cands,
                                "k": len(started.get(p, [])), "busy": bool(pending.get(p))}
                    continue
                H = slots.get(s)
                if H is None:
                    continue
                if op[0] == "close":
                    del slots[s]
                    close(H, op[2])
                    continue
                n, kind = op[2], op[3]
                if H["mode"] == "wb":
                    count[0] += 1
                    data = (b"%d:" % count[0] + b"x" * max(0, n - 3)) + (b"\n" if count[0] % 2 else b"")
                    o = w.call("write %s %d" % (H["p"], len(data)), H["h"].write, data)
                    H["data"] += data
                else:
                    o = w.call("read %s %s %d" % (H["p"], kind, n), H["h"].readline if kind == "line" else lambda: H["h"].read(n))
                    if o.ok and len(started.get(H["p"], [])) == H["k"]:
                        pos = H["pos"]

                        def want(c):
                            if kind == "line":
                                e = c.find(b"\n", pos)
                                return c[pos:] if e < 0 else c[pos:e + 1]
                            return c[pos:] if n < 0 else c[pos:pos + n]
                        H["cands"] = [c for c in H["cands"] if want(c) == o.value]
                        if not H["cands"]:
                            w.fail("read-wrong", "%s: %s(%d) at %d returned %r" % (H["p"], kind, n, pos, o))
                        H["pos"] += len(o.value)
                if not o.ok:
                    w.fail("io-raised", "%s (%s): %r" % (H["p"], H["mode"], o))
            for s in sorted(slots):
                close(slots[s], False)
        with w.faults(short_p=pr["short_p"]):
            common.run_threads(w, plan, body)
        for p in sorted(now):
            o = w.call("final read " + p, lambda: w.URI(root + p).open("rb").read())
            if not o.ok or o.value != now[p]:
                w.fail("content", "member %s: %r, %r was written last" % (p, o, now[p][:80]))


LETTERS = ["a", "b", "Z", " ", "\n", "\n", "\u00fc", "\u00df", "\u20ac", "\u4e2d", "\U0001d11e"]


def text(seed, n):
    """n characters that take one to four bytes"""
    out, x = [], seed * 7919 + 13
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2147483648
        out.append(LETTERS[(x >> 16) % len(LETTERS)])
    return "".join(out)


class C05Text:
    """Text handles: sizes count characters, whatever number of bytes these take."""
    NAME = "c05_text"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 1, 1, 2, 3])
        ops = []
        nf = rng.choice([1, 1, 2])
        for _ in range(rng.choice([8, 15, 30])):
            t = rng.randrange(nt)
            r = rng.random()
            if r < 0.3:
                ops.append([t, "open", rng.randrange(3), rng.randrange(nf), rng.choice(["r", "r", None, "rt", "rb", "w", "a", "a"])])
            elif r < 0.85:
                ops.append([t, "io", rng.randrange(3), rng.choice(["rw", "rw", "rw", "line", "next", "lines"]),
                            rng.choice([1, 1, 2, 3, 7, 100, 5000, 8192, -1]), rng.randrange(1000)])
            else:
                ops.append([t, "close", rng.randrange(3), rng.random() < 0.3])
        local = rng.random() < 0.4
        return {"sim": common.sim_params(rng, threads=nt > 1, step_cap=8000000), "ops": ops,
                "params": {"backend": "file" if local else "memory", "files": nf, "short_p": rng.choice([0, 0.3]) if local else 0,
                           "init": [[rng.choice([0, 1, 5, 60, 3000, 9000]) for _ in range(rng.choice([1, 1, 3]))] for _ in range(nf)]}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("text", 0) >= 1 and r["ops"] >= 4

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        base = "/simdisk/" if pr["backend"] == "file" else "memory:///"
        contents = []
        for i, ns in enumerate(pr["init"]):
            pieces = [text(i * 10 + j, n) for j, n in enumerate(ns)]
            for j, p in enumerate(pieces):
                with w.URI(base + "f%d" % i).open("a" if j else "w") as h:
                    h.write(p)
            contents.append("".join(pieces))

        def body(tid, ops):
            slots, own = {}, {}

            def close(s, how):
                H = slots.pop(s)
                h = H["h"]
                o = w.call("close", (lambda: h.__exit__(None, None, None)) if how else h.close)
                if not o.ok:
                    w.fail("io-raised", "closing a text handle (%s): %r" % (H["mode"], o))
                if H["write"]:
                    o = w.call("read back", lambda: H["u"].open("rb").read())
                    if not o.ok or o.value != own[s].encode("utf-8"):
                        w.fail("content", "%r was written as text, read back: %r" % (own[s][-100:], o))
            for op in ops:
                s = op[1]
                if op[0] == "open":
                    i, mode = op[2], op[3]
                    if s in slots:
                        continue
                    write = bool(mode) and mode[0] in "wa"
                    if write:
                        u = w.URI(base + "own%d-%d" % (tid, s))
                        own[s] = own.get(s, "") if mode == "a" else ""
                        want = None
                    else:
                        u = w.URI(base + "f%d" % i)
                        want = contents[i]
                        if s in own and i % 2:
                            u, want = w.URI(base + "own%d-%d" % (tid, s)), own[s]
                    o = w.call("open %s %s" % (u.path, mode), u.open, *([] if mode is None else [mode]))
                    if not o.ok:
                        w.fail("io-raised", "opening %s (%s): %r" % (u, mode, o))
                    slots[s] = {"u": u, "h": o.value, "mode": mode, "write": write, "binary": mode == "rb", "pos": 0,
                                "want": want.encode("utf-8") if mode == "rb" else want}
                    continue
                H = slots.get(s)
                if H is None:
                    continue
                if op[0] == "close":
                    close(s, op[2])
                    continue
                kind, n, x = op[2], op[3], op[4]
                h = H["h"]
                w.probe("text", not H["binary"])
                if H["write"]:
                    d = text(x, abs(n))
                    o = w.call("write %d" % len(d), h.write, d)
                    own[s] += d
                    if not o.ok:
                        w.fail("io-raised", "writing %d characters: %r" % (len(d), o))
                    continue
                want, pos = H["want"], H["pos"]
                nl, none = (b"\n", b"") if H["binary"] else ("\n", "")
                if kind == "lines":
                    o = w.call("readlines", lambda: list(h.readlines()))
                    exp = want[pos:].splitlines(True) if H["binary"] else [p + "\n" for p in want[pos:].split("\n")]
                    if not H["binary"]:
                        exp[-1] = exp[-1][:-1]
                        exp = [p for p in exp if p]
                    got = len(want) - pos
                else:
                    if kind in ("line", "next"):
                        e = want.find(nl, pos)
                        exp = want[pos:] if e < 0 else want[pos:e + 1]
                        o = w.call(kind, h.readline if kind == "line" else lambda: next(h, none))
                    else:
                        exp = want[pos:] if n < 0 else want[pos:pos + n]
                        o = w.call("read %d" % n, h.read, *([] if n == -1 else [n]))
                    got = len(exp)
                if not o.ok:
                    w.fail("io-raised", "%s: %s(%d) at %d: %r" % (H["u"], kind, n, pos, o))
                if o.value != exp:
                    w.fail("read-wrong", "%s (%s): %s(%d) at %d returned %s, the file has %s there" % (
                        H["u"], H["mode"], kind, n, pos, repr(o.value)[:120], repr(exp)[:120]))
                H["pos"] += got
            for s in sorted(slots):
                close(s, False)
        with w.faults(short_p=pr["short_p"]):
            common.run_threads(w, plan, body)
