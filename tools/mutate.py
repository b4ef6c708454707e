#!/usr/bin/env python3
"""Mutation campaign, to find where the checks are weak. Not a check; nothing registered uses it.

  tools/mutate.py unpythonic/fun.py C01,C03 --tests test_fun,test_fold [--funcs curry,memoize] [--max 60] [--slots 3]

For each mutant of the module (in a scratch copy of /repo) that passes the given unit tests, run the
checks; print the mutants that no check noticed.
"""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult]}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
           and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
    return out


def mutations(tree, funcs):
    """Yield (description, apply, undo)."""
    docs = docstrings(tree)
    roots = []
    if funcs:
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in funcs:
                roots.append(n)
    else:
        roots = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    seen = set()
    for root in roots:
        for n in ast.walk(root):
            if id(n) in seen or id(n) in docs:
                continue
            seen.add(id(n))
            line = getattr(n, "lineno", 0)

            def setter(obj, attr, new, what):
                old = getattr(obj, attr)
                return (f"L{line} {what}", lambda: setattr(obj, attr, new), lambda: setattr(obj, attr, old))

            if isinstance(n, ast.Compare):
                for i, op in enumerate(n.ops):
                    for new in CMP.get(type(op), []):
                        ops = list(n.ops)
                        ops[i] = new()
                        yield setter(n, "ops", ops, f"{ast.unparse(n)}: {type(op).__name__}->{new.__name__}")
            elif isinstance(n, ast.BoolOp):
                new = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                yield setter(n, "op", new, f"{ast.unparse(n)}: and<->or")
                for i in range(len(n.values)):
                    vals = n.values[:i] + n.values[i + 1:]
                    yield setter(n, "values", vals if len(vals) > 1 else [vals[0], vals[0]], f"{ast.unparse(n)}: drop operand {i}")
            elif isinstance(n, ast.BinOp):
                for new in BIN.get(type(n.op), []):
                    yield setter(n, "op", new(), f"{ast.unparse(n)}: {type(n.op).__name__}->{new.__name__}")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                yield setter(n, "op", ast.UAdd() if False else ast.Not(), "") if False else (
                    f"L{line} {ast.unparse(n)}: drop not",
                    (lambda n=n: setattr(n, "op", None) or setattr(n, "_not", True)), (lambda n=n: setattr(n, "op", ast.Not()) or delattr(n, "_not")))
            elif isinstance(n, ast.Constant):
                if n.value is True or n.value is False:
                    yield setter(n, "value", not n.value, f"{n.value} -> {not n.value}")
                elif isinstance(n.value, int):
                    yield setter(n, "value", n.value + 1, f"{n.value} -> {n.value + 1}")
                    if n.value > 0:
                        yield setter(n, "value", n.value - 1, f"{n.value} -> {n.value - 1}")
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                neg = ast.UnaryOp(ast.Not(), n.test)
                yield setter(n, "test", neg, f"if {ast.unparse(n.test)}: negate")
                if isinstance(n, ast.If):
                    yield setter(n, "test", ast.Constant(False), f"if {ast.unparse(n.test)}: never")
                    yield setter(n, "test", ast.Constant(True), f"if {ast.unparse(n.test)}: always")
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    args = [n.args[1], n.args[0]] + n.args[2:]
                    yield setter(n, "args", args, f"{ast.unparse(n)[:80]}: swap args")
                if len(n.keywords) >= 1:
                    for i in range(len(n.keywords)):
                        yield setter(n, "keywords", n.keywords[:i] + n.keywords[i + 1:], f"{ast.unparse(n)[:80]}: drop keyword {n.keywords[i].arg}")
                if isinstance(n.func, ast.Name) and n.func.id in ("tuple", "list", "reversed", "copy", "force", "set", "sorted", "deepcopy", "iter") and len(n.args) == 1:
                    yield (f"L{line} {ast.unparse(n)[:80]}: drop call", *unwrapper(tree, n))
            elif isinstance(n, ast.Slice):
                for a in ("lower", "upper", "step"):
                    if getattr(n, a) is not None:
                        yield setter(n, a, None, f"slice {ast.unparse(n)}: drop {a}")
            elif isinstance(n, ast.ExceptHandler) and n.type is not None and isinstance(n.type, ast.Name):
                if n.type.id != "Exception":
                    yield setter(n, "type", ast.Name("Exception", ast.Load()), f"except {n.type.id} -> Exception")
            for field in ("body", "orelse", "finalbody"):
                stmts = getattr(n, field, None)
                if isinstance(stmts, list):
                    for i, s in enumerate(stmts):
                        if id(s) in docs or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
                            continue
                        new = stmts[:i] + ([ast.Pass()]) + stmts[i + 1:]
                        line = s.lineno
                        yield setter(n, field, new, f"delete `{ast.unparse(s)[:90]}`")
                        if isinstance(s, ast.With):
                            new = stmts[:i] + s.body + stmts[i + 1:]
                            yield setter(n, field, new, f"unwrap with `{ast.unparse(s)[:60]}`")


def unwrapper(tree, call):
    """Replace a call f(x) by x, in its parent."""
    for p in ast.walk(tree):
        for f, v in ast.iter_fields(p):
            if v is call:
                return (lambda: setattr(p, f, call.args[0])), (lambda: setattr(p, f, call))
            if isinstance(v, list) and any(x is call for x in v):
                new = [call.args[0] if x is call else x for x in v]
                return (lambda: setattr(p, f, new)), (lambda: setattr(p, f, v))
    return (lambda: None), (lambda: None)


class Unparser(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return n.operand if getattr(n, "_not", False) else n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("checks")
    ap.add_argument("--tests", default="")
    ap.add_argument("--funcs", default="")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--slots", type=int, default=3)
    ap.add_argument("--jobs", default="3")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--macro", action="store_true", help="fresh bytecode for every mutant")
    ap.add_argument("--base", default="/tmp/mut")
    args = ap.parse_args()
    src = open(os.path.join("/repo", args.module)).read()
    tree = ast.parse(src)
    muts = list(mutations(tree, set(filter(None, args.funcs.split(",")))))
    texts = {}
    for desc, do, undo in muts:
        do()
        try:
            t = copy.deepcopy(tree)
            t = ast.fix_missing_locations(Unparser().visit(t))
            text = ast.unparse(t)
            compile(text, "x", "exec")
            texts[text] = desc
        except Exception:
            pass
        finally:
            undo()
    todo = list(texts.items())
    random.Random(args.seed).shuffle(todo)
    print(f"{len(todo)} mutants; taking {min(args.max, len(todo))}", flush=True)
    todo = todo[:args.max]
    slots = Queue()
    base = f"{args.base}/{os.getpid()}"
    os.makedirs(base)
    worker = open("/opt/vp/unpy/worker.py").read()
    for i in range(args.slots):
        d = f"{base}/s{i}"
        shutil.copytree("/repo", f"{d}/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        with open(f"{d}/worker.py", "w") as f:
            f.write(worker.replace('"/repo"', f'"{d}/repo"').replace('"/repo/"', f'"{d}/repo/"'))
        slots.put(d)
    stats = dict(tests=0, killed=0, survived=0, error=0)

    def go(item):
        text, desc = item
        d = slots.get()
        try:
            path = f"{d}/repo/{args.module}"
            with open(path, "w") as f:
                f.write(text)
            env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONDONTWRITEBYTECODE")}
            env.update(PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=f"{d}/pyc", VP_REPO=f"{d}/repo", VP_EVIDENCE=f"{d}/ev", VP_JOBS=args.jobs, TMPDIR=d)
            if args.macro:
                shutil.rmtree(f"{d}/pyc", ignore_errors=True)
            for t in filter(None, args.tests.split(",")):
                mod = t if t.startswith("unpythonic") else "unpythonic.tests." + t
                try:
                    r = subprocess.run([PY, f"{d}/worker.py", mod, f"{d}/log"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.DEVNULL, timeout=100)
                    log = open(f"{d}/log").read()
                except (subprocess.TimeoutExpired, OSError):
                    stats["tests"] += 1
                    return
                if r.returncode != 0 or "\nFAIL" in "\n" + log:
                    stats["tests"] += 1
                    return
            errors = []
            for c in args.checks.split(","):
                try:
                    r = subprocess.run(["bash", f"{HERE}/run.sh", c, "quick"], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    errors.append(c + " timeout")
                    continue
                if r.returncode == 1:
                    stats["killed"] += 1
                    return
                if r.returncode != 0:
                    errors.append(f"{c} exit {r.returncode}: {r.stderr[-300:]}")
            stats["error" if errors else "survived"] += 1
            print("SURVIVED" if not errors else f"ERROR {errors}", desc, flush=True)
        finally:
            slots.put(d)
    t0 = time.time()
    with ThreadPoolExecutor(args.slots) as pool:
        list(pool.map(go, todo))
    print(args.module, args.checks, stats, f"{time.time() - t0:.0f} s")
    shutil.rmtree(base)


main()
