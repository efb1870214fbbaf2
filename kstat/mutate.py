"""Small semantic edits of the analysed source, kept in memory, to measure how sharply a check decides."""
from __future__ import annotations

import ast
import copy

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.FloorDiv}
SKIP_CALLS = {"debug", "info", "warning", "error", "exception", "print", "log", "critical"}


def is_log(node):
    return (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and
            (getattr(node.value.func, "attr", None) in SKIP_CALLS or getattr(node.value.func, "id", None) in SKIP_CALLS))


def inside(node, fn):
    """Nodes of fn outside its docstring, logging and messages of exceptions."""
    out, stack = [], [fn] if not isinstance(fn, ast.FunctionDef) else list(fn.body)
    while stack:
        n = stack.pop()
        if is_log(n) or isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            continue
        out.append(n)
        stack.extend(ast.iter_child_nodes(n))
    return out


def edits(fn):
    """Yield (description, apply, undo) for every edit of a function node (edited in place)."""
    nodes = sorted((n for n in inside(None, fn) if hasattr(n, "lineno")), key=lambda n: (n.lineno, n.col_offset))
    for n in nodes:
        ln = n.lineno
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield (f"{ln}: {type(op).__name__} -> {CMP[type(op)].__name__}",
                           *swap_list(n.ops, i, CMP[type(op)]()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if isinstance(n, ast.BinOp) and any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                continue
            yield f"{ln}: {type(n.op).__name__} -> {BIN[type(n.op)].__name__}", *swap_attr(n, "op", BIN[type(n.op)]())
        if isinstance(n, ast.BoolOp):
            yield f"{ln}: and/or", *swap_attr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(Ellipsis))) and n.value is not None:
            v = n.value
            yield f"{ln}: {v!r} changed", *swap_attr(n, "value", (not v) if isinstance(v, bool) else v + 1)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield f"{ln}: drop {type(n.op).__name__}", *(swap_attr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else swap_attr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield f"{ln}: negated condition", *swap_attr(n, "test", ast.UnaryOp(ast.Not(), n.test))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
            def ap(n=n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            yield f"{ln}: swapped arguments", ap, ap
        if isinstance(n, ast.Call) and len(n.keywords) >= 2 and n.keywords[0].arg and n.keywords[1].arg:
            def ap2(n=n):
                a, b = n.keywords[0], n.keywords[1]
                a.value, b.value = b.value, a.value
            yield f"{ln}: swapped keyword values", ap2, ap2
        for field in ("body", "orelse", "finalbody"):
            blk = getattr(n, field, None)
            if isinstance(blk, list):
                for i, s in enumerate(blk):
                    yield from drops(blk, i, s)
    for i, s in enumerate(fn.body):
        yield from drops(fn.body, i, s)


def drops(blk, i, s):
    if is_log(s) or isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
        return
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        return
    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise)) or isinstance(s, ast.Assign) and not isinstance(
            s.targets[0], ast.Name) or isinstance(s, (ast.Continue, ast.Break)) or isinstance(s, ast.If):
        p = ast.copy_location(ast.Pass(), s)
        yield f"{s.lineno}: dropped {type(s).__name__}", *swap_list(blk, i, p)
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
        yield f"{s.lineno}: returns None", *swap_attr(s, "value", ast.copy_location(ast.Constant(None), s))


def swap_attr(n, name, new):
    old = getattr(n, name)
    return (lambda: setattr(n, name, new)), (lambda: setattr(n, name, old))


def swap_list(lst, i, new):
    old = lst[i]

    def ap():
        lst[i] = new

    def un():
        lst[i] = old
    return ap, un


def find(tree, func):
    """The node of `func` (program.Func) in a freshly parsed copy of its module."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == func.node.name and n.lineno == func.node.lineno:
            return n
    return None


def mutants(program, quals, root):
    """(label, relpath, source text) for every edit of every function in quals."""
    import os
    by = {}
    for q in sorted(quals):
        try:
            f = program.get_func(q)
        except Exception:
            continue
        by.setdefault(f.module.path, []).append(f)
    for rel, fns in sorted(by.items()):
        path = os.path.join(root, rel)
        if not os.path.exists(path):
            continue
        with open(path) as fh:
            tree = ast.parse(fh.read())
        for f in fns:
            node = find(tree, f)
            if node is None:
                continue
            for label, ap, un in list(edits(node)):
                ap()
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                except Exception:
                    text = None
                un()
                if text is not None:
                    yield f"{f.qual}:{label}", rel, text
