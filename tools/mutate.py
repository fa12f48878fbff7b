"""Mutation campaign: which small source changes that pass the repository's tests do the checks miss?

    /opt/venv/bin/python tools/mutate.py run OUT.jsonl [--files a.py b.py] [--cases N] [--jobs N] [--frac F]

Works on scratch copies of /repo under /tmp/mut (removed at the end); never touches /repo.
"""
import argparse
import ast
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["_base_agent.py", "_compare.py", "agent.py", "asynchronous.py", "bundle.py", "delay.py", "env.py", "executor.py", "funcov.py",
         "logger.py", "model.py", "triggers.py"]
ORDER = {"asynchronous.py": "C24 C01 C02 C03 C04 C05 C06", "triggers.py": "C07 C01 C02", "delay.py": "C08 C05", "bundle.py": "C19 C16 C01", "_base_agent.py": "C10 C09 C11 C12 C13 C04 C06",
         "agent.py": "C09 C10 C14 C13", "env.py": "C13 C10 C11 C09", "model.py": "C10 C13 C11 C06 C09", "executor.py": "C14 C15 C11 C05 C02",
         "funcov.py": "C16 C17", "logger.py": "C18", "_compare.py": "C12 C04"}
LOGS = {"debug", "info", "warning", "error", "critical", "summary"}


ROUND = 0


def third(tree, skip, seg, rep):
    """Other names, attributes and arguments; statements exchanged, repeated or moved; parts of loops; awaits turned into tasks."""
    rng = random.Random(3)
    attrs = sorted({n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute)})
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        names = sorted({a.arg for a in f.args.args + f.args.kwonlyargs} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        for n in ast.walk(f):
            if n in skip:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                other = [x for x in names if x != n.id]
                for x in rng.sample(other, min(2, len(other))):
                    rep(n, x, "var")
            if isinstance(n, ast.Attribute):
                for x in rng.sample(attrs, 1):
                    rep(n, f"{seg(n.value)}.{x}", "attr")
                near = [x for x in attrs if x != n.attr and (set(x.split("_")) & set(n.attr.split("_")) - {""})]
                for x in rng.sample(near, min(2, len(near))):
                    rep(n, f"{seg(n.value)}.{x}", "attr")
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a = [seg(x) for x in n.args]
                    a[i], a[i + 1] = a[i + 1], a[i]
                    a += [(f"**{seg(q.value)}" if q.arg is None else f"{q.arg}={seg(q.value)}") for q in n.keywords]
                    rep(n, f"{seg(n.func)}({', '.join(a)})", "argswap")
            if isinstance(n, (ast.For, ast.AsyncFor)):
                it = seg(n.iter)
                for new in (f"list({it})[1:]", f"list({it})[:1]", f"reversed(list({it}))", f"list({it})[:-1]", f"list({it})[:2]"):
                    rep(n.iter, new, "forpart")
            if isinstance(n, ast.Await):
                rep(n, f"asyncio.ensure_future({seg(n.value)})", "detach")
            for block in ("body", "orelse", "finalbody"):
                b = getattr(n, block, None)
                if not isinstance(b, list):
                    continue
                for x, y in zip(b, b[1:]):
                    if x in skip or y in skip or isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    pad = "\n" + " " * x.col_offset
                    both = ast.Expr(value=None)
                    both.lineno, both.col_offset, both.end_lineno, both.end_col_offset = x.lineno, x.col_offset, y.end_lineno, y.end_col_offset
                    rep(both, seg(y) + pad + seg(x), "swap")
                if isinstance(n, (ast.If, ast.For, ast.While)) and block == "body" and len(b) > 1 and b[-1] not in skip:
                    x = b[-1]
                    both = ast.Expr(value=None)
                    both.lineno, both.col_offset, both.end_lineno, both.end_col_offset = x.lineno, x.col_offset, x.end_lineno, x.end_col_offset
                    if not n.orelse and not isinstance(x, (ast.Continue, ast.Break, ast.If, ast.For, ast.While, ast.Try, ast.FunctionDef, ast.AsyncFunctionDef)):
                        rep(both, "pass\n" + " " * n.col_offset + seg(x), "dedent")
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
                rep(n, seg(n) + "\n" + " " * n.col_offset + seg(n), "twice")


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()

    def rep(n, new, op):
        s, e = span(n)
        out.append((n.lineno, op, b[s:e].decode(), new, s, e))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n)
            skip.add(n.value)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", getattr(n.value.func, "attr", "")) in LOGS:
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(m)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.arg)):
            for a in ([n.annotation] if isinstance(n, ast.arg) else [n.returns]):
                if a is not None:
                    for m in ast.walk(a):
                        skip.add(m)
    CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, j.join(f"({seg(v)})" for v in n.values), "bool")
            for i in range(len(n.values)):
                k = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, k.join(f"({seg(v)})" for q, v in enumerate(n.values) if q != i), "booldrop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, f"({seg(n.operand)})", "not")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, (int, float)):
                rep(n, repr(n.value + 1), "const")
                if n.value:
                    rep(n, "0", "const")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr)):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&"}
            rep(n, f"{seg(n.left)} {sw[type(n.op)]} {seg(n.right)}", "arith")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.While):
                rep(n.test, "False", "cond")
            else:
                rep(n.test, "True", "cond")
                rep(n.test, "False", "cond")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, "return None", "return")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete, ast.Assert)):
            rep(n, "pass", "del")
        if isinstance(n, ast.Break):
            rep(n, "continue", "loop")
            rep(n, "pass", "loop")
        if isinstance(n, ast.Continue):
            rep(n, "pass", "loop")
            rep(n, "break", "loop")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None or len(n.keywords) + len(n.args) < 2:
                    continue
                rest = [seg(a) for a in n.args] + [(f"**{seg(q.value)}" if q.arg is None else f"{q.arg}={seg(q.value)}") for q in n.keywords if q is not k]
                rep(n, f"{seg(n.func)}({', '.join(rest)})", "kwdrop")
            name = getattr(n.func, "id", "")
            if name in ("list", "tuple", "set", "dict", "sorted", "reversed") and len(n.args) == 1 and not n.keywords:
                rep(n, f"({seg(n.args[0])})", "copydrop")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "items") and not n.args:
                rep(n, seg(n.func.value), "copydrop") if n.func.attr == "copy" else None
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if isinstance(h.type, ast.Tuple):
                    for i in range(len(h.type.elts)):
                        rep(h.type, "(" + "".join(seg(x) + ", " for q, x in enumerate(h.type.elts) if q != i) + ")", "except")
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "compif")
    if ROUND == 3:
        out.clear()
        third(tree, skip, seg, rep)
    res, seen = [], set()
    for line, op, old, new, s, e in out:
        nb = b[:s] + new.encode() + b[e:]
        try:
            t = ast.dump(ast.parse(nb))
        except SyntaxError:
            continue
        h = hashlib.sha1(t.encode()).hexdigest()
        if h in seen:
            continue
        seen.add(h)
        res.append((line, op, old, new, nb.decode()))
    return res


PROBE = r'''
import sys, os, json
sys.path.insert(0, %(verif)r)
os.environ["VERIF_REPO"] = %(repo)r
from sim import runner, execcase
cases = %(cases)d
for pid in %(order)r:
    prop = runner.load(pid)
    for i in range(cases):
        r = execcase.run_stable(prop, runner.make_case(prop, 7, i))
        if r["verdict"] != "ok":
            print("KILL", json.dumps([pid, r["verdict"], r["kind"], str(r["msg"])[:160], i])); sys.exit(0)
print("SURVIVED")
'''


def one(w, fn, m, cases, allp):
    line, op, old, new, text = m
    p = f"{w}/toffee/{fn}"
    orig = open(p).read()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONHASHSEED="0", PYTHONPATH=w, VERIF_REPO=w)
    rec = {"file": fn, "line": line, "op": op, "old": old, "new": new}
    try:
        open(p, "w").write(text)
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30", "tests"], cwd=w, env=env,
                               capture_output=True, text=True, timeout=120)
            if t.returncode != 0:
                return dict(rec, res="tests")
        except subprocess.TimeoutExpired:
            return dict(rec, res="tests")
        first = ORDER.get(fn, "").split()
        order = first + ([x for x in allp if x not in first] if WIDE else [])
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-c", PROBE % dict(verif=VERIF, repo=w, cases=cases, order=order)], cwd=VERIF, env=env, capture_output=True,
                               text=True, timeout=1500)
            last = (t.stdout.strip().splitlines() or ["?"])[-1]
            if last.startswith("KILL"):
                return dict(rec, res="killed", by=json.loads(last[5:]))
            return dict(rec, res="survived" if last == "SURVIVED" else "error", by=[last, t.stderr[-300:]])
        except subprocess.TimeoutExpired:
            return dict(rec, res="timeout")
    finally:
        open(p, "w").write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out")
    ap.add_argument("--files", nargs="*", default=FILES)
    ap.add_argument("--cases", type=int, default=120)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--frac", type=float, default=1.0)
    ap.add_argument("--only", help="jsonl of an earlier run: only its survivors")
    ap.add_argument("--wide", action="store_true", help="run every property on every mutant")
    ap.add_argument("--round", type=int, default=1, help="3: the operators of the third round")
    ap.add_argument("--skip", help="jsonl of an earlier run: leave out its mutants")
    a = ap.parse_args()
    global WIDE, ROUND
    ROUND = a.round
    WIDE = a.wide
    done = {(r["file"], r["line"], r["old"], r["new"], r["op"]) for r in map(json.loads, open(a.skip)) if r["res"] != "error"} if a.skip else set()
    allp = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(f"{VERIF}/props/c{i:02d}.py")]
    todo = []
    only = None
    if a.only:
        only = {(r["file"], r["old"], r["new"], r["op"]) for r in map(json.loads, open(a.only)) if r["res"] in ("survived", "error", "timeout")}
    for f in a.files:
        for m in mutants(f"/repo/toffee/{f}"):
            if (only is None or (f, m[2], m[3], m[1]) in only) and (f, m[0], m[2], m[3], m[1]) not in done:
                todo.append((f, m))
    rng = random.Random(1)
    rng.shuffle(todo)
    todo = todo[:int(len(todo) * a.frac)]
    print(len(todo), "mutants", flush=True)
    if a.cmd == "count":
        return
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    q = Queue()
    for i in range(a.jobs):
        shutil.copytree("/repo", f"/tmp/mut/w{i}", ignore=shutil.ignore_patterns(".git"))
        q.put(f"/tmp/mut/w{i}")

    def go(x):
        w = q.get()
        try:
            return one(w, x[0], x[1], a.cases, allp)
        finally:
            q.put(w)
    n = {}
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "w") as f:
        for r in ex.map(go, todo):
            n[r["res"]] = n.get(r["res"], 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)
    print(n)


main()
