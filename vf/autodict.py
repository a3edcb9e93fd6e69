"""Constants of the code under test, as a fuzzing dictionary.

The literals of /repo's Python sources are collected per function (folded where
they are simple expressions such as 1 << 15).  Literals that the committed
baseline (data/constants.json) does not have for that function are "fresh":
generators prefer them as values, lengths and counts.  This only steers the
search; no verdict depends on it.
"""
import ast
import json
import os

from vf.engine import REPO, VERIF

_BASE = os.path.join(VERIF, "data", "constants.json")


def _fold(node):
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool) or v is None or v is Ellipsis:
            return None
        if isinstance(v, (int, float, str, bytes)):
            return v
        return None
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Invert)):
        v = _fold(node.operand)
        if isinstance(v, (int, float)):
            try:
                return -v if isinstance(node.op, ast.USub) else ~v
            except TypeError:
                return None
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if isinstance(a, int) and isinstance(b, int) and abs(a) < 1 << 70 and abs(b) < 1 << 70:
            o = node.op
            if isinstance(o, ast.Add):
                return a + b
            if isinstance(o, ast.Sub):
                return a - b
            if isinstance(o, ast.Mult):
                return a * b
            if isinstance(o, ast.LShift) and 0 <= b < 70:
                return a << b
            if isinstance(o, ast.Pow) and 0 <= b < 70 and abs(a) < 1000:
                return a**b
    return None


def _doc_ids(tree):
    out = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
            if isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                out.add(id(body[0].value))
    return out


def collect(repo=REPO):
    """{"file::function": [repr(constant), ...]}"""
    out = {}
    root = os.path.join(repo, "palworld_save_tools")
    for d, _, files in os.walk(root):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            try:
                with open(p, encoding="utf8") as fh:
                    tree = ast.parse(fh.read())
            except (SyntaxError, ValueError):
                continue
            rel = os.path.relpath(p, root)
            docs = _doc_ids(tree)

            def visit(node, qual):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, ast.JoinedStr):
                        continue
                    q = qual
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        q = qual + "." + c.name
                    v = None if id(c) in docs else _fold(c)
                    if v is not None:
                        out.setdefault(rel + "::" + qual, set()).add(repr(v))
                    visit(c, q)

            visit(tree, "")
    return {k: sorted(v) for k, v in sorted(out.items())}


def _load_base():
    try:
        with open(_BASE) as f:
            return json.load(f)
    except OSError:
        return None


class Fresh:
    def __init__(self):
        self.ints, self.strs, self.bytes, self.floats, self.files = [], [], [], [], []


def fresh():
    base = _load_base()
    fr = Fresh()
    if base is None:
        return fr
    allbase = {r for v in base.values() for r in v}
    ints, strs, byts, flts, files = set(), set(), set(), set(), set()
    for key, vals in collect().items():
        known = set(base.get(key, ()))
        newfn = key not in base
        for r in vals:
            if r in known or (newfn and r in allbase):
                continue
            v = ast.literal_eval(r)
            files.add(key.split("::")[0])
            if isinstance(v, int):
                ints.add(v)
            elif isinstance(v, str):
                if len(v) <= 200:
                    strs.add(v)
            elif isinstance(v, bytes):
                if len(v) <= 200:
                    byts.add(v)
            else:
                flts.add(v)
    fr.ints = sorted(ints)[:40]
    fr.strs = sorted(strs)[:40]
    fr.bytes = sorted(byts)[:40]
    fr.floats = sorted(flts, key=repr)[:40]
    fr.files = sorted(files)
    return fr


if __name__ == "__main__":
    with open(_BASE, "w") as f:
        json.dump(collect(), f, indent=0)
        f.write("\n")
