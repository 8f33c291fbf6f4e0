"""C06: file locks."""
from . import common


class Boom(Exception):
    pass


class C06Locks:
    NAME = "c06_locks"

    @staticmethod
    def gen(rng, tier):
        nt = rng.choice([1, 2, 2, 3, 4])
        backend = rng.choice(["memory", "file"])
        cleanup = rng.choice(["never", "always", "mixed"])
        alias = cleanup == "never" and rng.random() < 0.3
        nf = rng.choice([1, 1, 2])
        names = rng.choice([["f0", "f1"], ["f0", "f1"], ["f0", "dir/f0"], ["sub/f0", "dir/f0"], ["f0", "f00"], ["f0", "F0"]])
        ni = rng.choice([1, 1, 2]) if backend == "memory" else 1
        ops = []
        for t in range(nt):
            for _ in range(rng.choice([1, 2, 3, 5])):
                r = rng.random()
                if r < 0.12:
                    ops.append([t, "sleep", rng.choice([0.1, 1, 3])])
                elif r < 0.2 and ni > 1:
                    ops.append([t, "other", rng.randrange(100, 110)])
                elif r > 0.92:
                    ops.append([t, "bad", rng.randrange(ni), rng.choice(["none/f", "dir", "dir", "f0/x"]), rng.random() < 0.5, rng.random() < 0.5])
                else:
                    f = rng.randrange(nf)
                    ops.append([t, "lock", rng.randrange(ni), f if not alias or rng.random() < 0.5 else "l%d" % f,
                                rng.random() < 0.4, {"never": False, "always": True}.get(cleanup, rng.random() < 0.5),
                                rng.choice([0, 0, 0.5, 2]), rng.choice([0, 1, 30, 9000]),
                                rng.choice(["", "", "", "raise", "raise", "rm" if nt == 1 and not alias else ""])])
        return {"sim": common.sim_params(rng, threads=nt > 1), "ops": ops,
                "params": {"backend": backend, "files": nf, "names": names, "alias": alias, "pre": rng.random() < 0.5,
                           "fault_p": rng.choice([0, 0, 0.05, 0.15]) if backend == "file" else 0}}

    @staticmethod
    def nontrivial(r):
        return r["probes"].get("held", 0) >= 1 and (r["probes"].get("contended", 0) >= 1 or r["ops"] >= 3)

    @staticmethod
    def run(w, plan):
        pr = plan["params"]
        local = pr["backend"] == "file"
        many = len({op[0] for op in plan["ops"]}) > 1

        def uri(inst, f):
            name = f if isinstance(f, str) else pr["names"][f]
            if local:
                return w.URI("/simdisk/" + name)
            return w.URI("memory:///" + name) if inst == 0 else w.URI("memory:///" + name, inst=str(inst))
        insts = sorted({op[2] for op in plan["ops"] if op[1] in ("lock", "bad")} | {0})
        for inst in insts:
            uri(inst, "dir").mkdir()
            uri(inst, "sub").mkdir()
            with uri(inst, "dir/in").open("wb") as h:
                h.write(b"in")
            for f in range(pr["files"]):
                if pr["pre"]:
                    with uri(inst, f).open("wb") as h:
                        h.write(b"old")
                if pr["alias"]:
                    uri(inst, f).symlink(uri(inst, "l%d" % f))
        holder = {}      # (instance, file) -> what the holder is about
        trying = {}      # (instance, file) -> number of threads between the call and the end of the block
        calls = {}       # (instance, file) -> number of attempts so far
        stamp = {}       # (instance, file) -> counts acquisitions and releases
        from abl.util import LockFileObtainException

        def real(inst, f):
            with w.quiet(), w.no_faults():
                u = uri(inst, f)
                h = u.open("rb")
                try:
                    return h.read()
                finally:
                    h.close()

        def body(tid, ops):
            for n, op in enumerate(ops):
                if op[0] == "sleep":
                    w.sleep(op[1])
                    continue
                if op[0] == "bad":
                    # what cannot be locked: in a folder that is not there, a folder, below a file
                    _, inst, p, fail, cleanup = op
                    f0 = len(w.disk.faults.fired)
                    o = w.call("lock " + p, uri(inst, p).lock(fail_on_lock=fail, cleanup=cleanup).__enter__)
                    if len(w.disk.faults.fired) > f0:
                        continue
                    if o.ok or o.kind not in ("ENOENT", "EISDIR", "ENOTDIR", "LockFileCreationException"):
                        if not (fail and not o.ok and o.kind == "LockFileObtainException" and many):
                            w.fail("locked-nothing", "%s is no file that could be locked: %r" % (p, o))
                    continue
                if op[0] == "other":
                    # yet another file system instance is made meanwhile
                    o = w.call("other", lambda: w.URI("memory:///x", inst=str(op[1])).exists())
                    if not o.ok:
                        w.fail("raised", "%r" % o)
                    continue
                _, inst, f, fail, cleanup, hold, size, how = op
                key = (inst, int(f[1:]) if isinstance(f, str) else f)
                u = uri(inst, f)
                trying[key] = trying.get(key, 0) + 1
                calls[key] = calls.get(key, 0) + 1
                if trying[key] > 1:
                    w.probe("contended")
                was, st0, t0 = holder.get(key), stamp.get(key, 0), w.sim.mono
                alone, calls0 = trying[key] == 1, calls[key]
                fired0 = len(w.disk.faults.fired)
                lk = u.lock(fail_on_lock=fail, cleanup=cleanup)
                o = w.call("lock %s%s" % (key, " try" if fail else ""), lk.__enter__)
                fired = len(w.disk.faults.fired) > fired0
                if fail and w.sim.mono > t0 and not fired:
                    w.fail("not-at-once", "a fail-on-lock attempt on %s took %.3f s" % (key, w.sim.mono - t0))
                if not o.ok:
                    trying[key] -= 1
                    if fired and o.kind not in ("LockFileObtainException",):
                        continue
                    if o.kind != "LockFileObtainException" or not fail:
                        w.fail("raised", "locking %s (fail_on_lock=%s): %r" % (key, fail, o))
                    if alone and stamp.get(key, 0) == st0 and was is None and calls[key] == calls0:
                        w.fail("refused", "a fail-on-lock attempt on %s failed although nobody had or wanted the lock" % (key,))
                    continue
                if fail and was is not None and stamp.get(key, 0) == st0:
                    w.fail("two-holders", "a fail-on-lock attempt on %s succeeded while %s held it" % (key, was))
                if holder.get(key) is not None:
                    w.fail("two-holders", "thread %d got the lock of %s while %s held it" % (tid, key, holder[key]))
                holder[key] = "thread %d (its %d. operation)" % (tid, n)
                stamp[key] = stamp.get(key, 0) + 1
                w.probe("held")
                h = o.value
                data = b"".join(b"%d.%d.%d;" % (tid, n, i) for i in range(size // 6 + 1)) if size else b""
                try:
                    try:
                        f0 = len(w.disk.faults.fired)
                        try:
                            if local:
                                h.write(data.decode())
                            else:
                                h.write(data)
                            h.flush()
                            wrote = True
                        except OSError:
                            if len(w.disk.faults.fired) == f0:
                                raise
                            wrote = False
                        if hold:
                            w.sleep(hold)
                        if wrote and not w.disk.faults.armed or wrote and not pr["fault_p"]:
                            try:
                                c = real(inst, f)
                            except Exception as e:
                                w.fail("content-harmed", "the file %s is not readable for its holder: %s: %s" % (key, type(e).__name__, e))
                            if not c.endswith(data):
                                w.fail("content-harmed", "the holder of %s has written %d bytes, of which its file has lost some while he holds it (%d bytes there)" % (
                                    key, len(data), len(c)))
                        if how == "rm":
                            u.remove()
                        if how == "raise":
                            raise Boom()
                    except Boom as e:
                        exc = (Boom, e, None)
                    else:
                        exc = (None, None, None)
                except Exception as e:
                    if len(w.disk.faults.fired) == f0 and len(w.disk.faults.fired) == fired0:
                        w.fail("raised", "inside the lock of %s: %s: %s" % (key, type(e).__name__, e))
                    exc = (type(e), e, None)
                holder[key] = None
                stamp[key] += 1
                others0, calls0 = trying[key], calls[key]
                f1 = len(w.disk.faults.fired)
                o = w.call("unlock %s%s" % (key, " cleanup" if cleanup else ""), lk.__exit__, *exc)
                trying[key] -= 1
                met = len(w.disk.faults.fired) > f1
                if not o.ok and not (met or not wrote):
                    w.fail("raised", "leaving the lock of %s (cleanup=%s): %r" % (key, cleanup, o))
                if o.ok and o.value and exc[0] is Boom:
                    w.fail("swallowed", "leaving the lock of %s swallowed the exception of its body" % (key,))
                if o.ok and others0 == 1 and calls[key] == calls0 and how != "rm" and not met:
                    if cleanup:
                        with w.quiet():
                            if u.exists() and calls[key] == calls0:
                                w.fail("not-cleaned", "%s exists after its lock was left with cleanup" % (key,))
                    elif wrote:
                        with w.quiet():
                            c = real(inst, f) if u.exists() else None
                        if calls[key] == calls0 and (c is None or not c.endswith(data)):
                            w.fail("content-lost", "%s does not hold what was written under the lock" % (key,))
        with w.faults(p=pr["fault_p"], max=2, ops=["open", "open-create", "write", "flock", "close", "unlink"]):
            common.run_threads(w, plan, body)
        for inst in insts:
            if [x for x in uri(inst, "dir").listdir() if x != "f0"] != ["in"] or uri(inst, "none").exists():
                w.fail("content-harmed", "an attempt to lock what is no file has changed something: %r, %r" % (
                    uri(inst, "dir").listdir(), uri(inst, "none").exists()))
        for key in sorted({(op[2], int(str(op[3]).lstrip("l"))) for op in plan["ops"] if op[1] == "lock"}):
            o = w.call("lock at the end %s" % (key,), lambda: uri(*key).lock(fail_on_lock=True).__enter__())
            if not o.ok:
                w.fail("not-released", "after everybody left it the lock of %s cannot be had: %r" % (key, o))
