"""Literals of the code under test, used to aim the workload (never to decide anything).

Boundary values written in the source are where behaviour changes, so generators mix them (and their neighbours) with
their own boundary sets.
"""

import ast
import os


def harvest(src):
    ints, strs = set(), set()
    for root, _dirs, files in os.walk(src):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except (SyntaxError, ValueError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and abs(v) < 1 << 64:
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 60:
                        strs.add(v)
                elif isinstance(node, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(node), "x", "eval"), {"__builtins__": {}})
                    except Exception:
                        continue
                    if isinstance(v, int) and abs(v) < 1 << 64:
                        ints.add(v)
    return sorted(ints), sorted(strs)


INTS = []
NEAR = []
STRS = []


def load(src):
    global INTS, STRS, NEAR
    ints, strs = harvest(src)
    INTS[:] = ints
    STRS[:] = strs
    near = set()
    for v in ints:
        near.update((v - 1, v, v + 1))
    NEAR[:] = sorted(near)
