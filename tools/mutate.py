#!/usr/bin/env python3
"""Sensitivity survey: make small changes to the code under test, keep those that pass its tests, and see which
check notices each.  Works on scratch copies only; not used by any check.

  mutate.py list  DIR [FILE...]       write every mutant that passes the tests to DIR/<id>.diff
  mutate.py run   DIR RUNS [IDS...]   run the checks against each; results in DIR/results.jsonl
"""
import ast
import copy
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

REPO = "/repo"
BASE = "abl/vpath/base/"
FILES = ["fs.py", "memory.py", "zip.py", "localfs.py", "misc.py", "simpleuri.py", "uriparse.py"]
# which checks to try for a change at a line (up to ...)
ORDER = {
    "fs.py": [(195, "C01 C02 C03"), (276, "C07 C01 C16 C02 C10"), (620, "C19 C07 C08 C01 C14 C11"), (838, "C07 C16 C12 C20"), (895, "C08 C12 C07 C16"),
              (915, "C01 C02"), (936, "C08 C10 C07"), (1030, "C08 C09 C12"), (1045, "C13 C07"), (1200, "C14 C07 C08")],
    "memory.py": [(260, "C05 C04 C17 C07"), (346, "C06 C12 C04"), (470, "C07 C04 C16"), (1000, "C07 C04 C17 C16 C06 C10 C08")],
    "zip.py": [(1000, "C20 C11 C05 C12 C14 C08")],
    "localfs.py": [(90, "C06 C12"), (200, "C07 C08 C10 C12"), (217, "C09"), (1000, "C07 C08 C06 C09")],
    "misc.py": [(1000, "C15")],
    "simpleuri.py": [(1000, "C19 C01 C08 C07 C11")],
    "uriparse.py": [(1000, "C19 C01 C08 C07 C11 C20")],
}


def parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.parent = n


def mutants(tree):
    """(description, function applying the change in place to a deep copy) by node index"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for j, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Delete, ast.Assert, ast.Break, ast.Continue)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    yield "del", s.lineno, i, (lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Pass()))
                if j + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise, ast.FunctionDef)) \
                        and not isinstance(b[j + 1], (ast.FunctionDef, ast.Return)) \
                        and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    def swap(m, f=f, j=j):
                        x = getattr(m, f)
                        x[j], x[j + 1] = x[j + 1], x[j]
                    yield "swap", s.lineno, i, swap
                if isinstance(s, ast.With):
                    yield "unwith", s.lineno, i, (lambda m, f=f, j=j: getattr(m, f).__setitem__(
                        slice(j, j + 1), getattr(m, f)[j].body))
                if isinstance(s, ast.Try):
                    def untry(m, f=f, j=j):
                        x = getattr(m, f)[j]
                        getattr(m, f)[j:j + 1] = x.body + x.orelse + x.finalbody
                    yield "untry", s.lineno, i, untry
                if isinstance(s, ast.If) and s.orelse:
                    pass
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            def neg(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            if not isinstance(n, ast.While):
                yield "neg", ln, i, neg
                yield "true", ln, i, (lambda m: setattr(m, "test", ast.Constant(True)))
            yield "false", ln, i, (lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                yield "dropop%d" % k, ln, i, (lambda m, k=k: m.values.pop(k))
            yield "andor", ln, i, (lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = type(n.ops[0])
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(t, [])
            for a in alt:
                yield "cmp" + a.__name__, ln, i, (lambda m, a=a: m.ops.__setitem__(0, a()))
        if isinstance(n, ast.Constant) and not isinstance(getattr(n, "parent", None), ast.Expr):
            if isinstance(n.value, bool):
                yield "bool", ln, i, (lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                yield "int+", ln, i, (lambda m: setattr(m, "value", m.value + 1))
                if n.value:
                    yield "int0", ln, i, (lambda m: setattr(m, "value", 0))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr)):
            yield "binl", ln, i, ("replace", lambda m: m.left)
            yield "binr", ln, i, ("replace", lambda m: m.right)
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    yield "kw-" + kw.arg, ln, i, (lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "rstrip", "lstrip", "items", "keys"):
                yield "un" + n.func.attr, ln, i, ("replace", lambda m: m.func.value)
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "set", "dict", "frozenset") and len(n.args) == 1:
                yield "un" + n.func.id, ln, i, ("replace", lambda m: m.args[0])
            if len(n.args) > 1:
                yield "droparg", ln, i, (lambda m: m.args.pop())
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for k, d in enumerate(n.decorator_list):
                if not (isinstance(d, ast.Name) and d.id in ("property", "decorator")):
                    yield "undec", ln, i, (lambda m, k=k: m.decorator_list.pop(k))
        if isinstance(n, ast.ExceptHandler):
            def rr(m):
                m.body = [ast.Raise()]
            yield "reraise", ln, i, rr
            def swallow(m):
                m.body = [ast.Pass()]
            if not (len(n.body) == 1 and isinstance(n.body[0], ast.Pass)):
                yield "swallow", ln, i, swallow
            if n.type is not None:
                yield "exctype", ln, i, (lambda m: setattr(m, "type", ast.Name("Exception", ast.Load())))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield "unslice", ln, i, ("replace", lambda m: m.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield "unnot", ln, i, ("replace", lambda m: m.operand)


def apply_one(src, i, fn):
    t = ast.parse(src)
    parents(t)
    m = list(ast.walk(t))[i]
    if isinstance(fn, tuple):
        new = fn[1](m)
        p = m.parent
        for f, v in ast.iter_fields(p):
            if v is m:
                setattr(p, f, new)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if x is m:
                        v[k] = new
    else:
        fn(m)
    ast.fix_missing_locations(t)
    return ast.unparse(t)


def test_one(job):
    d, mid, f, new, orig = job
    c = "%s/w-%s" % (d, mid)
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    t = c + "-tmp"
    os.makedirs(t)
    os.chown(t, 65534, 65534)
    for r, ds, _ in os.walk(c):
        os.chown(r, 65534, 65534)
    try:
        with open(c + "/" + BASE + f, "w") as o:
            o.write(new)
        try:
            # as nobody: a changed removal may remove what it likes
            p = subprocess.run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs",
                                "/opt/venv/bin/python", "-B", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=c,
                               env=dict(os.environ, PYTHONPATH=c, TMPDIR=t, HOME=t), capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return mid, False
        return mid, p.returncode == 0
    finally:
        shutil.rmtree(c, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)


def cmd_list(d, files):
    jobs, meta = [], {}
    for f in files or FILES:
        src = open("%s/%s%s" % (REPO, BASE, f)).read()
        blame = subprocess.run(["git", "-C", REPO, "blame", "-s", BASE + f], capture_output=True, text=True).stdout.splitlines()
        base = ast.unparse(ast.parse(src))
        t = ast.parse(src)
        parents(t)
        seen = {base}
        k = 0
        for op, ln, i, fn in mutants(t):
            try:
                new = apply_one(src, i, fn)
                ast.parse(new)
            except Exception:
                continue
            if new in seen:
                continue
            seen.add(new)
            k += 1
            mid = "%s-%03d" % (f[:-3], k)
            meta[mid] = dict(id=mid, file=f, line=ln, op=op, text=src.splitlines()[ln - 1].strip(), orig=blame[ln - 1].startswith("^"))
            jobs.append((d, mid, f, new, base))
    print(len(jobs), "mutants", flush=True)
    os.makedirs(d, exist_ok=True)
    by = {j[1]: j for j in jobs}
    n = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex, open(d + "/mutants.jsonl", "w") as out:
        for mid, ok in ex.map(test_one, jobs):
            if ok:
                n += 1
                with open("%s/%s.py" % (d, mid), "w") as o:
                    o.write(by[mid][3])
                out.write(json.dumps(meta[mid]) + "\n")
                out.flush()
    print(n, "pass the tests", flush=True)


def cmd_run(d, runs, ids):
    ms = [json.loads(l) for l in open(d + "/mutants.jsonl")]
    done = set()
    if os.path.exists(d + "/results.jsonl"):
        done = {json.loads(l)["id"] for l in open(d + "/results.jsonl")}
    workers = os.environ.get("J", "4")
    for m in ms:
        if ids and m["id"] not in ids or not ids and m["id"] in done:
            continue
        c = d + "/r-" + m["id"]
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        shutil.copyfile("%s/%s.py" % (d, m["id"]), c + "/" + BASE + m["file"])
        res = dict(m, caught=None)
        for prop in next(ps for last, ps in ORDER[m["file"]] if m["line"] <= last).split():
            try:
                p = subprocess.run(["python3", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check.py", prop, "--runs", str(runs), "--no-min",
                                    "--workers", workers],
                                   env=dict(os.environ, ABL_REPO=c, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res.setdefault("odd", []).append(prop + " timeout")
                continue
            if p.returncode == 1:
                res["caught"] = prop
                res["what"] = [l for l in p.stdout.splitlines() if l.startswith("violation")][:1]
                break
            if p.returncode:
                res.setdefault("odd", []).append("%s rc=%d %s" % (prop, p.returncode, p.stdout[-300:]))
        shutil.rmtree(c, ignore_errors=True)
        with open(d + "/results.jsonl", "a") as o:
            o.write(json.dumps(res) + "\n")
        print(m["id"], m["file"], m["line"], m["op"], m["text"][:60], "->", res["caught"], res.get("odd", ""), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        cmd_list(sys.argv[2], sys.argv[3:])
    else:
        cmd_run(sys.argv[2], int(sys.argv[3]), sys.argv[4:])
