#!/usr/bin/env python3
"""mutate.py ID FILE [FUNC,FUNC..] [-j N] [-t SECONDS] [--sample K]: survivors among one-place changes of FILE under check ID.
A working aid, not part of any check."""
import argparse
import ast
import os
import random
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids")
ap.add_argument("file")
ap.add_argument("funcs", nargs="?", default="")
ap.add_argument("-j", type=int, default=4)
ap.add_argument("-t", type=int, default=300)
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--skip", default="__str__,__repr__,print_mrx,print")
ap.add_argument("--seed", type=int, default=1)
a = ap.parse_args()
REPO = os.environ.get("VERIF_REPO", "/repo")
src = open(os.path.join(REPO, a.file), "rb").read()
tree = ast.parse(src)
starts = [0]
for i, c in enumerate(src):
    if c == 10:
        starts.append(i + 1)
pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
funcs = set(a.funcs.split(",")) - {""}
skip = set(a.skip.split(","))
muts = []


def text(n):
    s, e = pos(n)
    return src[s:e]


def opswap(left, right, table):
    """operator text lies between left and right"""
    s, e = pos(left)[1], pos(right)[0]
    t = src[s:e]
    for o, n in table:
        if o in t:
            i = t.index(o)
            muts.append((s + i, s + i + len(o), n))
            return


def visit(n):
    if isinstance(n, (ast.FunctionDef,)) and n.name in skip:
        return
    if isinstance(n, ast.If) and b"verbose" in text(n.test):
        return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
        return
    if isinstance(n, ast.BinOp):
        T = {ast.Add: [(b"+", b"-")], ast.Sub: [(b"-", b"+")], ast.Mult: [(b"*", b"/")], ast.Div: [(b"/", b"*")]}.get(type(n.op))
        if T and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            opswap(n.left, n.right, T)
    elif isinstance(n, ast.Compare) and len(n.ops) == 1:
        opswap(n.left, n.comparators[0], [(b"<=", b"<"), (b">=", b">"), (b"==", b"!="), (b"!=", b"=="), (b"<", b"<="), (b">", b">=")])
    elif isinstance(n, ast.BoolOp):
        opswap(n.values[0], n.values[1], [(b"and", b"or"), (b"or", b"and")])
    elif isinstance(n, ast.AugAssign):
        T = {ast.Add: b"-", ast.Sub: b"+", ast.Mult: b"/", ast.Div: b"*"}.get(type(n.op))
        if T:
            s, e = pos(n.target)[1], pos(n.value)[0]
            i = src.index(b"=", s) - 1
            muts.append((i, i + 1, T))
        muts.append((*pos(n), b"pass"))
    elif isinstance(n, ast.Assign):
        muts.append((*pos(n), b"pass"))
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        muts.append((*pos(n), b"pass"))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        v = n.value
        muts.append((*pos(n), (b"%d" % (v + 1)) if isinstance(v, int) else repr(v * 1.5 + 0.25).encode()))
        if v == 1 and isinstance(v, int):
            muts.append((*pos(n), b"0"))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
        muts.append((*pos(n), repr(not n.value).encode()))
    elif isinstance(n, ast.Break):
        muts.append((*pos(n), b"pass"))
    for f, v in ast.iter_fields(n):
        if f in ("decorator_list", "annotation"):
            continue
        for c in (v if isinstance(v, list) else [v]):
            if isinstance(c, ast.AST):
                visit(c)


for n in ast.walk(tree):
    if isinstance(n, ast.FunctionDef) and (not funcs or n.name in funcs) and n.name not in skip:
        inner = [m for m in ast.walk(tree) if isinstance(m, ast.FunctionDef) and m is not n and n in ast.walk(m)]
        if inner:
            continue
        for s in n.body:
            visit(s)
muts = sorted(set(muts))
if a.sample and len(muts) > a.sample:
    random.seed(a.seed)
    muts = sorted(random.sample(muts, a.sample))


def line(p):
    return src[:p].count(b"\n") + 1


def run(m):
    s, e, new = m
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "most_queue"), os.path.join(d, "most_queue"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, a.file), "wb").write(src[:s] + new + src[e:])
        res = "survived"
        for i in a.ids.split(","):
            try:
                r = subprocess.run([os.path.join(ROOT, "check"), i], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=os.path.join(d, "out"), VERIF_JOBS="2"),
                                   capture_output=True, text=True, timeout=a.t)
                if r.returncode == 1 and "VIOLATION property=%s " % i in r.stdout:
                    return m, "caught"
                if r.returncode != 0:
                    res = "no verdict: " + (r.stdout.strip().split("\n") or [""])[0][:160]
            except subprocess.TimeoutExpired:
                res = "timeout"
        return m, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(a.j) as ex:
    cnt = {}
    for m, res in ex.map(run, muts):
        cnt[res.split(":")[0]] = cnt.get(res.split(":")[0], 0) + 1
        if res != "caught":
            l = line(m[0])
            old = src.split(b"\n")[l - 1].decode(errors="replace").strip()
            print("%s | %d: %s | %s -> %s" % (res, l, old[:110], src[m[0]:m[1]].decode(errors="replace")[:40].split("\n")[0], m[2].decode()), flush=True)
    print(a.ids, a.file, cnt)
