#!/usr/bin/env python3
"""Small random changes to the package, to look for blind spots of the checks.

usage: mutate.py SRCDIR OUTDIR FILE:PROPS:ONLY COUNT SEED

Makes COUNT single-site mutants of FILE (path relative to SRCDIR/graph_ensembles) one
after another in a copy of SRCDIR, runs the quick checks of PROPS (comma separated)
restricted to targets whose name contains ONLY, and writes to OUTDIR/log.jsonl which check (if any)
caught it. Not used by any registered check.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add],
       ast.Div: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr],
       ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}
SWAP = [("out", "in"), ("rows", "cols"), ("i", "j"), ("x_i", "y_j"), ("x", "y"),
        ("p_out_i", "p_in_j"), ("indptr", "indices"), ("src", "dst")]


def sites(tree):
    """(node, description, function applying the change)"""
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        for node in ast.walk(fn):
            where = "%s:%d" % (fn.name, getattr(node, "lineno", 0))
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                for new in CMP.get(type(node.ops[0]), []):
                    yield where, "cmp->%s" % new.__name__, (node, "cmp", new)
            if isinstance(node, (ast.BinOp, ast.AugAssign)):
                for new in BIN.get(type(node.op), []):
                    yield where, "op->%s" % new.__name__, (node, "op", new)
            if isinstance(node, ast.BoolOp):
                yield where, "boolop", (node, "boolop", None)
            if isinstance(node, ast.If):
                yield where, "if->not", (node, "negate", None)
                yield where, "if->True", (node, "iftrue", None)
                yield where, "if->False", (node, "iffalse", None)
            if isinstance(node, ast.Constant) and not isinstance(node.value, str):
                if isinstance(node.value, bool):
                    yield where, "not %s" % node.value, (node, "const", not node.value)
                elif isinstance(node.value, (int, float)):
                    yield where, "%s+1" % node.value, (node, "const", node.value + 1)
                    if node.value:
                        yield where, "0", (node, "const", type(node.value)(0))
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                for a, b in SWAP:
                    for p, q in ((a, b), (b, a)):
                        n = node.id
                        if n == p:
                            yield where, "%s->%s" % (p, q), (node, "name", q)
                        elif p in ("out", "in") and "_" + p in n:
                            yield where, "%s->%s" % (n, n.replace("_" + p, "_" + q)), (
                                node, "name", n.replace("_" + p, "_" + q))
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                n = node.attr
                for p, q in (("out", "in"), ("in", "out")):
                    if n.endswith("_" + p) or "_%s_" % p in n:
                        yield where, "%s.." % n, (node, "attr", n.replace("_" + p, "_" + q))
                if n == "T":
                    yield where, "drop .T", (node, "unT", None)
            if isinstance(node, ast.Call) and len(node.args) >= 2:
                yield where, "swap first args", (node, "args", None)
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Continue,
                                 ast.Break, ast.Delete)):
                if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                    yield where, "drop statement", (node, "drop", None)


def apply(mut):
    node, kind, arg = mut
    if kind == "cmp":
        node.ops = [arg()]
    elif kind == "op":
        node.op = arg()
    elif kind == "boolop":
        node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
    elif kind == "negate":
        node.test = ast.UnaryOp(ast.Not(), node.test)
    elif kind == "iftrue":
        node.test = ast.Constant(True)
    elif kind == "iffalse":
        node.test = ast.Constant(False)
    elif kind == "const":
        node.value = arg
    elif kind == "name":
        node.id = arg
    elif kind == "attr":
        node.attr = arg
    elif kind == "unT":
        node.__class__ = ast.Call
        v = node.value
        node.__dict__ = {"func": ast.Name("id_", ast.Load()), "args": [v], "keywords": [],
                         "lineno": v.lineno, "col_offset": v.col_offset}
    elif kind == "args":
        node.args[0], node.args[1] = node.args[1], node.args[0]
    elif kind == "drop":
        node.__class__ = ast.Pass
        node._fields = ()


def main():
    src, out, spec, count, seed = sys.argv[1:6]
    fname, props, only = (spec.split(":") + ["", ""])[:3]
    props = props.split(",")
    os.makedirs(out, exist_ok=True)
    work = os.path.join(out, "src")
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(src, work)
    path = os.path.join(work, "graph_ensembles", fname)
    text = open(path).read()
    rng = random.Random(int(seed))
    tree = ast.parse(text)
    n = len(list(sites(tree)))
    pick = rng.sample(range(n), min(int(count), n))
    log = open(os.path.join(out, "log.jsonl"), "a")
    for k in pick:
        t = ast.parse(text)
        where, what, mut = list(sites(t))[k]
        apply(mut)
        try:
            new = ast.unparse(ast.fix_missing_locations(t))
        except Exception as exc:
            continue
        if new == ast.unparse(tree):
            continue
        open(path, "w").write(new)
        t0 = time.time()
        res = None
        imp = subprocess.run(["/opt/venv/bin/python", "-c", "import graph_ensembles"],
                             env=dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1"),
                             capture_output=True)
        if imp.returncode:
            res = "import"
        else:
            for p in props:
                env = dict(os.environ, GE_SRC=work, VERIF_JOBS=os.environ.get("MUT_JOBS", "3"))
                if only:
                    env["ONLY"] = only
                q = subprocess.Popen([os.path.join(ROOT, "check"), p, "quick"], env=env,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     text=True, start_new_session=True)
                try:
                    txt, _ = q.communicate(timeout=400)
                except subprocess.TimeoutExpired:
                    os.killpg(q.pid, 9)
                    q.wait()
                    res = "timeout " + p
                    break
                r = q
                if r.returncode == 1:
                    res = p
                    break
                if r.returncode:
                    res = "error %s: %s" % (p, txt[-300:])
                    break
        log.write(json.dumps({"file": fname, "site": k, "where": where, "what": what,
                              "caught": res, "s": round(time.time() - t0)}) + "\n")
        log.flush()
    shutil.rmtree(work, ignore_errors=True)


main()
