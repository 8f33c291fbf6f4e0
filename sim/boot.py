"""Process set-up: put the seams in place, then import abl from the tree under test."""
import gc
import io
import os
import sys
import warnings

PY = "/opt/venv/bin/python"
ENV = {"PYTHONHASHSEED": "0", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8",
       "LC_ALL": "C.UTF-8"}


def reexec():
    """Start over in a controlled environment (idempotent)."""
    want = dict(ENV)
    if os.environ.get("SIM_HASHSEED"):
        want["PYTHONHASHSEED"] = os.environ["SIM_HASHSEED"]
    want["SIM_BOOTED"] = "1"
    if all(os.environ.get(k) == v for k, v in want.items()) and sys.flags.no_user_site:
        return
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(want)
    py = PY if os.path.exists(PY) else sys.executable
    sys.stdout.flush()
    os.execve(py, [py, "-B", "-s"] + sys.argv, env)


ATEXIT = []
BYTESIO_REAL = io.BytesIO


def load():
    """Install every seam and import the library; returns its main module."""
    from . import core, disk
    sys.dont_write_bytecode = True
    sys.path.insert(0, core.REPO)
    sys.path[:] = [p for p in sys.path if p not in ("", os.getcwd())] if os.getcwd() != core.REPO else sys.path
    # modules the library and the harness use, imported before the seams so that
    # their own import-time work is not routed through them
    import atexit, datetime, fnmatch, hashlib, logging, mimetypes, shutil, tempfile, threading, time  # noqa
    import queue, concurrent.futures, subprocess, traceback, linecache, tokenize, zipfile, pathlib  # noqa
    import contextlib, functools, inspect, json, struct, zlib, bz2, lzma, signal, select  # noqa
    import _strptime  # noqa
    mimetypes.init()
    warnings.simplefilter("ignore")
    # the same environment wherever this runs
    for k in list(os.environ):
        if not k.startswith(("ABL_", "VERIF_", "SIM_", "FID_", "PYTHON")):
            del os.environ[k]
    os.environ.update(ENV, PATH="/usr/bin:/bin", HOME="/simdisk/home", USER="sim", a="b")
    disk.install()
    core.install_threading()

    class SimBytesIO(io.BytesIO):
        """In-memory buffers can fail too: allocation failure on write."""

        def write(self, b):
            d = disk.DISK
            if d is not None and d.faults.armed and d.faults.alloc_p:
                s = core._sim()
                if s is not None:
                    f = d.faults
                    v = s.choices.pick("alloc", lambda g: 1 if g.random() < f.alloc_p else 0)
                    if v and len(f.fired) < f.max:
                        f.note(("alloc", "ENOMEM"))
                        f.hard += 1
                        s.count("fault:ENOMEM@alloc")
                        s.log("FAULT", "alloc", len(b))
                        raise MemoryError("injected")
            return super().write(b)
    SimBytesIO.__name__ = SimBytesIO.__qualname__ = "BytesIO"
    io.BytesIO = SimBytesIO
    real_register = atexit.register

    def register(fn, *a, **k):
        ATEXIT.append((fn, a, k))
        return fn
    atexit.register = register
    try:
        import abl.vpath.base as base
        import abl.vpath.base.fs
        import abl.vpath.base.memory
        import abl.vpath.base.localfs
        import abl.vpath.base.zip
        import abl.vpath.base.misc
        import abl.util
    finally:
        atexit.register = real_register
        io.BytesIO = BYTESIO_REAL
    f = abl.vpath.base.fs.__file__
    if not f.startswith(core.TRACE_PREFIX):
        raise core.HarnessError("abl.vpath imported from %s, not from %s" % (f, core.REPO))
    missing = [s for s in ("file", "memory", "zip") if s not in abl.vpath.base.fs.CONNECTION_REGISTRY.schemes]
    if missing:
        raise core.HarnessError("backends not registered: %s" % missing)
    gc.collect()
    gc.freeze()
    gc.disable()
    return base
