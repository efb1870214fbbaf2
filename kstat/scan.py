"""Whole-program syntactic scans with resolved names (call graph, nondeterminism sources, hidden state)."""
from __future__ import annotations

import ast

from .program import Class, Func


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None


def local_imports(func):
    out = {}
    for n in ast.walk(func.node):
        if isinstance(n, ast.Import):
            for al in n.names:
                out[al.asname or al.name.split(".")[0]] = al.name if al.asname else al.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = func.module.resolve_from(n)
            for al in n.names:
                out[al.asname or al.name] = f"{base}.{al.name}" if base else al.name
    return out


def resolve_name(func, n, imps=None):
    """Dotted, import-resolved name of an expression (None when it is a local value)."""
    d = dotted(n)
    if d is None:
        return None
    head, _, rest = d.partition(".")
    imps = imps if imps is not None else local_imports(func)
    m = func.module
    if head in bound_locals(func):
        return None
    if head in imps:
        base = imps[head]
    elif head in m.imports:
        base = m.imports[head]
    elif head in m.functions or head in m.classes or head in m.consts:
        base = f"{m.name}.{head}"
    else:
        base = "builtins." + head if not rest else None
        if base is None:
            return None
    return base + ("." + rest if rest else "")


def bound_locals(func):
    c = getattr(func, "_bound_locals", None)
    if c is None:
        c = set()
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            c.add(x.arg)
        if a.vararg:
            c.add(a.vararg.arg)
        if a.kwarg:
            c.add(a.kwarg.arg)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                c.add(n.id)
        func._bound_locals = c
    return c


def all_functions(program):
    for m in program.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f
            for f in getattr(c, "setters", {}).values():
                yield f


def call_edges(program, func, index):
    """Over-approximate callees: resolved names, plus every method of the same name for attribute calls."""
    out = []
    imps = local_imports(func)
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call):
            q = resolve_name(func, n.func, imps)
            if q:
                k, o = program.resolve(q)
                if k == "func":
                    out.append((o, n))
                    continue
                if k == "class":
                    for nm in ("__init__", "__post_init__"):
                        mm = program.find_method(o, nm)
                        if isinstance(mm, Func):
                            out.append((mm, n))
                    continue
            if isinstance(n.func, ast.Attribute):
                # ClassName.method / cls.method / obj.method
                base = resolve_name(func, n.func.value, imps)
                if base:
                    k, o = program.resolve(base)
                    if k == "class":
                        mm = program.find_method(o, n.func.attr)
                        if isinstance(mm, Func):
                            out.append((mm, n))
                        continue
                    if k is not None and k != "none" and base.split(".")[0] != "kmcpy":
                        continue
                if n.func.attr in GENERIC:
                    continue
                for mm in index.get(n.func.attr, ()):
                    out.append((mm, n))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for mm in index.get(n.attr, ()):
                if mm.is_property:
                    out.append((mm, n))
    return out


#: library method names for which name-based dispatch into the package would only add noise
GENERIC = {"random", "append", "items", "keys", "values", "get", "copy", "index", "join", "split", "format", "extend",
           "pop", "tolist", "astype", "reshape", "flatten", "lower", "upper", "strip"}


def reachable(program, roots):
    index = {}
    for f in all_functions(program):
        if f.cls is not None:
            index.setdefault(f.name, []).append(f)
    seen, work = {}, []
    for q in roots:
        f = program.get_func(q)
        seen[f.qual] = f
        work.append(f)
    while work:
        f = work.pop()
        for g, _ in call_edges(program, f, index):
            if g.qual not in seen:
                seen[g.qual] = g
                work.append(g)
    return seen


SHORT = {"float32", "float16", "half", "single", "int8", "int16", "uint8", "uint16", "f4", "f2", "<f4", "<f2", "i1", "i2", "u1", "u2",
         "f", "e", "b", "h"}
WHOLE = {"int", "int_", "int64", "int32", "intp", "i8", "i4", "bool", "bool_", "long", "uint32", "uint64"}
MAKERS = {"zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like", "array", "asarray", "fromiter", "ascontiguousarray"}


def _dtype(func, imps, n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    q = resolve_name(func, n, imps) if isinstance(n, (ast.Name, ast.Attribute)) else None
    if q and (q.startswith("numpy.") or q.startswith("builtins.")):
        return q.rsplit(".", 1)[1]
    return None


def array_types(func):
    """(line, dtype name, target attribute or None) of every array created or converted in a function with a literal type."""
    imps = local_imports(func)
    for st in ast.walk(func.node):
        if not isinstance(st, ast.stmt) or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            continue
        attr = None
        tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, (ast.AnnAssign, ast.AugAssign)) else []
        for t in tg:
            if isinstance(t, ast.Attribute):
                attr = t.attr
        for n in ast.walk(st):
            if not isinstance(n, ast.Call):
                continue
            kw = {k.arg: k.value for k in n.keywords}
            d = None
            q = resolve_name(func, n.func, imps)
            if q and q.startswith("numpy."):
                name = q[6:]
                if name in MAKERS:
                    d = kw.get("dtype") or (n.args[1] if len(n.args) > 1 and name not in ("full", "full_like") else
                                            n.args[2] if len(n.args) > 2 else None)
                elif name in SHORT:
                    yield n.lineno, name, attr, n
                    continue
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "astype":
                d = kw.get("dtype") or (n.args[0] if n.args else None)
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("create_dataset", "sum", "cumsum", "mean"):
                d = kw.get("dtype")
            if d is not None:
                v = _dtype(func, imps, d)
                if v:
                    yield n.lineno, v, attr, n
