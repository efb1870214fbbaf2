#!/usr/bin/env python3
"""Apply behaviour-preserving refactorings, in memory, at every site of the functions a check analyses; the check must stay quiet.

usage: refactor.py PROPERTY|all [function substring] [kind]
"""
import ast
import builtins
import copy
import multiprocessing as mp
import os
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
BUILTINS = set(dir(builtins))
NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def parse1(src):
    return ast.parse(src).body[0]


def loads(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in out:
                out.append(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in out:
                out.append(x.target.id)
    return out


def binds(nodes):
    """Names bound in this scope by the statements (not in nested scopes / comprehensions)."""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


def has(nodes, types, nested=False):
    for n in nodes:
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, types):
                return True
            if not nested and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(x))
    return False


def has_jump(nodes):
    """break/continue belonging to an outer loop, or return."""
    def walk(n, inloop):
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, (ast.Break, ast.Continue)) and not inloop:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        lp = inloop or isinstance(n, (ast.For, ast.While))
        return any(walk(c, lp) for c in ast.iter_child_nodes(n))
    return any(walk(n, False) for n in nodes)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def blocks(fn):
    out = [fn.body]
    for n in ast.walk(fn):
        if n is fn or isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
    return out


def ends(blk):
    return bool(blk) and isinstance(blk[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


class Ctx:
    def __init__(self, tree, fn, parent):
        self.tree, self.fn, self.parent = tree, fn, parent
        self.is_method = isinstance(parent, ast.ClassDef)
        self.kind = None
        if self.is_method:
            d = [getattr(x, "id", None) for x in fn.decorator_list]
            self.kind = "static" if "staticmethod" in d else "class" if "classmethod" in d else "self"
        self.deco = [ast.dump(x) for x in fn.decorator_list]

    def helper(self, name, ps, body):
        """Define helper in the same scope; returns call source prefix and the passed parameter list."""
        first = None
        if self.is_method and self.kind in ("self", "class"):
            first = params(self.fn)[0]
        ps = [p for p in ps if p != first]
        if self.is_method and first:
            f = parse1(f"def {name}({', '.join([first] + ps)}):\n    pass")
            if self.kind == "class":
                f.decorator_list = [ast.Name("classmethod", ast.Load())]
            callee = f"{first}.{name}"
            place = self.parent.body
        else:
            f = parse1(f"def {name}({', '.join(ps)}):\n    pass")
            callee = name
            place = self.tree.body
            if any("njit" in d or "jit" in d for d in self.deco):
                f.decorator_list = copy.deepcopy(self.fn.decorator_list)
        f.body = body or [ast.Pass()]
        anchor = self.fn if self.is_method and first else (self.parent if self.is_method else self.fn)
        top = anchor if anchor in place else next((x for x in place if any(y is self.fn for y in ast.walk(x))), place[-1])
        place.insert(place.index(top) if not self.is_method or not first else place.index(top) + 1, f)
        return f"{callee}({', '.join(ps)})"


def localnames(fn):
    return set(params(fn)) | set(binds(fn.body))


def used_from_outside(ctx, nodes):
    loc = localnames(ctx.fn)
    return [n for n in loads(nodes) if n in loc]


class Renamer(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.m.get(n.name, n.name)
        self.generic_visit(n)
        return n


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def sites(fn):
    """(kind, number of sites) is discovered by running each transform with a counter."""


# each transform: f(ctx) -> list of thunks that edit the tree in place
def t_rename(ctx):
    names = [n for n in binds(ctx.fn.body) if n not in params(ctx.fn) and not n.startswith("__")]
    imported = set()
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imported |= {(a.asname or a.name).split(".")[0] for a in n.names}
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            imported |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not ctx.fn:
            imported.add(n.name)
            imported |= set(params(n)) if isinstance(n, ast.FunctionDef) else set()
        if isinstance(n, ast.Lambda):
            imported |= {a.arg for a in n.args.args}
    m = {n: f"loc_{i}_{n[:3]}" for i, n in enumerate(names) if n not in imported}
    if not m:
        return []

    def go():
        ctx.fn.body = [Renamer(m).visit(s) for s in ctx.fn.body]
    return [go]


def t_return_local(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([ast.Name("result_value", ast.Store())], s.value),
                                  ast.Return(ast.Name("result_value", ast.Load()))]
                out.append(go)
    return out


def t_cond_local(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not simple(s.test):
                def go(b=b, i=i, s=s):
                    t = s.test
                    s.test = ast.Name("is_needed", ast.Load())
                    b.insert(i, ast.Assign([ast.Name("is_needed", ast.Store())], t))
                out.append(go)
    return out


def t_args_local(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            c = getattr(s, "value", None) if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(c, ast.Call) and (c.args or c.keywords) and not any(isinstance(a, ast.Starred) for a in c.args) \
                    and not any(k.arg is None for k in c.keywords) and isinstance(c.func, (ast.Name, ast.Attribute)):
                if isinstance(c.func, ast.Attribute) and not simple(c.func.value):
                    continue

                def go(b=b, i=i, c=c):
                    pre = []
                    for j, a in enumerate(c.args):
                        if not simple(a):
                            pre.append(ast.Assign([ast.Name(f"arg_{j}", ast.Store())], a))
                            c.args[j] = ast.Name(f"arg_{j}", ast.Load())
                    for k in c.keywords:
                        if not simple(k.value):
                            pre.append(ast.Assign([ast.Name(f"arg_{k.arg}", ast.Store())], k.value))
                            k.value = ast.Name(f"arg_{k.arg}", ast.Load())
                    b[i:i] = pre
                if any(not simple(a) for a in c.args) or any(not simple(k.value) for k in c.keywords):
                    out.append(go)
    return out


def t_suffix_helper(ctx):
    out = []
    body = ctx.fn.body
    st = 1 if is_doc(body[0]) else 0
    if has(body, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) or "super()" in ast.unparse(ctx.fn) \
            or any("property" in d or "setter" in d for d in ctx.deco) and False:
        return []
    if has(body, (ast.FunctionDef,)):
        return []
    for i in range(st, len(body)):
        suffix = body[i:]
        if len(suffix) == 1 and isinstance(suffix[0], ast.Pass):
            continue
        before = set(params(ctx.fn)) | set(binds(body[:i]))
        if i > st and any(isinstance(x, ast.ImportFrom) for x in body[:i]):
            imp = set(binds([x for x in body[:i] if isinstance(x, (ast.Import, ast.ImportFrom))]))
        else:
            imp = set()
        need = [n for n in loads(suffix) if n in before]
        maybe = set()
        for x in body[:i]:
            if not isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr, ast.Import, ast.ImportFrom)):
                maybe |= set(binds([x]))
        sure = set(params(ctx.fn)) | set(binds([x for x in body[:i] if isinstance(x, (ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom))]))
        if any(n in maybe and n not in sure for n in need):
            # both-branch definitions are fine; loop or one-armed definitions might be unbound
            pass

        def go(i=i, need=need):
            sfx = body[i:]
            call = ctx.helper("_rest_of_" + ctx.fn.name.strip("_"), need, sfx)
            del body[i:]
            body.append(parse1(f"return {call}") if has(sfx, ast.Return) else parse1(call))
        if ctx.fn.name != "__init__" or not has(suffix, ast.Return):
            out.append(go)
    return out


def t_prefix_helper(ctx):
    out = []
    body = ctx.fn.body
    st = 1 if is_doc(body[0]) else 0
    if has(body, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef)) or "super()" in ast.unparse(ctx.fn):
        return []
    for j in range(st + 1, len(body)):
        pre, rest = body[st:j], body[j:]
        if has_jump(pre):
            break
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in pre):
            break
        live = [n for n in binds(pre) if n in loads(rest)]
        sure = set(binds([x for x in pre if isinstance(x, (ast.Assign, ast.AnnAssign))]))
        if any(n not in sure and n not in params(ctx.fn) for n in live):
            continue
        need = [n for n in loads(pre) if n in params(ctx.fn)]
        need += [n for n in live if n in params(ctx.fn) and n not in need]

        def go(j=j, live=live, need=need):
            pre = body[st:j]
            hb = list(pre)
            if live:
                hb.append(parse1("return " + ", ".join(live)))
            call = ctx.helper("_prepare_" + ctx.fn.name.strip("_"), need, hb)
            body[st:j] = [parse1((", ".join(live) + " = " if live else "") + call)]
        out.append(go)
    return out


def t_cond_helper(ctx):
    out = []
    if has(ctx.fn.body, (ast.FunctionDef,)):
        return []
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not simple(n.test) and not has([n.test], ast.NamedExpr):
            if isinstance(n, ast.IfExp):
                continue

            def go(n=n):
                call = ctx.helper("_is_relevant", used_from_outside(ctx, [n.test]), [ast.Return(n.test)])
                n.test = ast.parse(call, mode="eval").body
            out.append(go)
    return out


def t_loop_body_helper(ctx):
    out = []
    if has(ctx.fn.body, (ast.FunctionDef,)):
        return []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not has_jump(s.body) and not has(s.body, (ast.Yield, ast.Import, ast.ImportFrom)):
                bound = set(binds(s.body))
                outside = set()
                for n in ast.walk(ctx.fn):
                    if isinstance(n, ast.Name) and n.id in bound and not any(n is x for y in s.body for x in ast.walk(y)):
                        outside.add(n.id)
                if outside:
                    continue
                need = [n for n in used_from_outside(ctx, s.body) if n not in bound]

                def go(s=s, need=need):
                    call = ctx.helper("_process_one", need, s.body)
                    s.body = [parse1(call)]
                out.append(go)
    return out


def t_expr_helper(ctx):
    """Extract the right-hand side of an assignment / return value into a helper."""
    out = []
    if has(ctx.fn.body, (ast.FunctionDef,)):
        return []
    for b in blocks(ctx.fn):
        for s in b:
            v = getattr(s, "value", None) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return, ast.AugAssign)) else None
            if v is not None and not simple(v) and not has([v], (ast.NamedExpr, ast.Await, ast.Lambda)) and "super()" not in ast.unparse(v):
                imp = set()
                for x in ast.walk(ctx.fn):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        imp |= set(binds([x]))
                if imp & set(loads([v])):
                    continue

                def go(s=s, v=v):
                    call = ctx.helper("_calculate_value", used_from_outside(ctx, [v]), [ast.Return(v)])
                    s.value = ast.parse(call, mode="eval").body
                out.append(go)
    return out


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def t_invert(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.If) and n.orelse:
            def go(n=n):
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            out.append(go)
        if isinstance(n, ast.IfExp):
            def go2(n=n):
                n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
            out.append(go2)
    return out


def t_guard_to_else(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and b[i + 1:]:
                def go(b=b, i=i, s=s):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                out.append(go)

                def go3(b=b, i=i, s=s):
                    rest = b[i + 1:]
                    s.test = neg(s.test)
                    s.body, s.orelse = rest, s.body
                    del b[i + 1:]
                out.append(go3)
            if isinstance(s, ast.If) and ends(s.body) and s.orelse:
                def go2(b=b, i=i, s=s):
                    b[i + 1:i + 1] = s.orelse
                    s.orelse = []
                out.append(go2)
    return out


def t_loop_guard(ctx):
    """for: if c: body  <->  for: if not c: continue; body"""
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.For, ast.While)):
            last = n.body[-1]
            if isinstance(last, ast.If) and not last.orelse:
                def go(n=n, last=last):
                    n.body[-1:] = [ast.If(neg(last.test), [ast.Continue()], [])] + last.body
                out.append(go)
            for i, s in enumerate(n.body):
                if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and not s.orelse and n.body[i + 1:]:
                    def go2(n=n, i=i, s=s):
                        rest = n.body[i + 1:]
                        n.body[i:] = [ast.If(neg(s.test), rest, [])]
                    out.append(go2)
    return out


def t_demorgan(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp):
            def go(n=n):
                t = n.test
                op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in t.values]))
            out.append(go)
    return out


def t_nest_and(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            def go(n=n):
                vs = n.test.values
                rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
                n.test = vs[0]
                n.body = [ast.If(rest, n.body, [])]
            out.append(go)
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and not s.orelse and ends(s.body):
                def go2(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
                out.append(go2)
    return out


def t_comp_to_loop(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.AnnAssign)):
                continue
            for c in ast.walk(s):
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp)) and len(c.generators) == 1 and outermost(s, c):
                    def go(b=b, i=i, s=s, c=c):
                        g = c.generators[0]
                        nm = "collected"
                        if isinstance(c, ast.ListComp):
                            init, add = "[]", ast.Expr(call(f"{nm}.append", c.elt))
                        elif isinstance(c, ast.SetComp):
                            init, add = "set()", ast.Expr(call(f"{nm}.add", c.elt))
                        else:
                            init = "{}"
                            add = ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), c.key, ast.Store())], c.value)
                        body = [add]
                        for t in reversed(g.ifs):
                            body = [ast.If(t, body, [])]
                        loop = ast.For(g.target, g.iter, body, [])
                        replace(s, c, ast.Name(nm, ast.Load()))
                        b[i:i] = [parse1(f"{nm} = {init}"), loop]
                    out.append(go)
                if isinstance(c, ast.GeneratorExp) and len(c.generators) == 1 and outermost(s, c):
                    def go2(s=s, c=c):
                        replace(s, c, ast.ListComp(c.elt, c.generators))
                    out.append(go2)
                    par = parent(s, c)
                    if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ("any", "all", "sum") and len(par.args) == 1:
                        def go3(b=b, i=i, s=s, c=c, par=par):
                            g = c.generators[0]
                            k = par.func.id
                            if k == "sum":
                                body = [ast.AugAssign(ast.Name("total_value", ast.Store()), ast.Add(), c.elt)]
                                init = "total_value = 0"
                                nm = "total_value"
                            else:
                                nm = "flag_value"
                                init = f"flag_value = {k == 'all'}"
                                body = [ast.If(c.elt if k == "any" else neg(c.elt), [parse1(f"flag_value = {k == 'any'}"), ast.Break()], [])]
                            for t in reversed(g.ifs):
                                body = [ast.If(t, body, [])]
                            replace(s, par, ast.Name(nm, ast.Load()))
                            b[i:i] = [parse1(init), ast.For(g.target, g.iter, body, [])]
                        out.append(go3)
    # if any(...): / if all(...): in tests
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If):
                for c in ast.walk(s.test):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 \
                            and isinstance(c.args[0], ast.GeneratorExp) and (c is s.test or isinstance(s.test, ast.UnaryOp)):
                        def go4(b=b, i=i, s=s, c=c):
                            g = c.args[0].generators[0]
                            k = c.func.id
                            elt = c.args[0].elt
                            body = [ast.If(elt if k == "any" else neg(elt), [parse1(f"flag_value = {k == 'any'}"), ast.Break()], [])]
                            for t in reversed(g.ifs):
                                body = [ast.If(t, body, [])]
                            replace(s, c, ast.Name("flag_value", ast.Load()))
                            b[i:i] = [parse1(f"flag_value = {k == 'all'}"), ast.For(g.target, g.iter, body, [])]
                        out.append(go4)
    return out


def call(f, *args):
    return ast.Call(ast.parse(f, mode="eval").body, list(args), [])


def outermost(s, c):
    """c is evaluated unconditionally and once by statement s."""
    def walk(n):
        if n is c:
            return True
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            return False
        return any(walk(x) for x in ast.iter_child_nodes(n))
    return walk(s)


def parent(s, c):
    for n in ast.walk(s):
        if any(x is c for x in ast.iter_child_nodes(n)):
            return n


def replace(s, old, new):
    class R(ast.NodeTransformer):
        def generic_visit(self, n):
            if n is old:
                return new
            return super().generic_visit(n)

        def visit(self, n):
            if n is old:
                return new
            return super().visit(n)
    for f, v in ast.iter_fields(s):
        if isinstance(v, ast.AST):
            setattr(s, f, R().visit(v))
        elif isinstance(v, list):
            v[:] = [R().visit(x) if isinstance(x, ast.AST) else x for x in v]


def t_loop_to_comp(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and i:
                body, ifs = s.body[0], []
                while isinstance(body, ast.If) and not body.orelse and len(body.body) == 1:
                    ifs.append(body.test)
                    body = body.body[0]
                p = b[i - 1]
                if isinstance(body, ast.Expr) and isinstance(body.value, ast.Call) and isinstance(body.value.func, ast.Attribute) \
                        and body.value.func.attr == "append" and isinstance(body.value.func.value, ast.Name) \
                        and isinstance(p, (ast.Assign, ast.AnnAssign)) and isinstance(p.value, ast.List) and not p.value.elts:
                    t = p.targets[0] if isinstance(p, ast.Assign) else p.target
                    if isinstance(t, ast.Name) and t.id == body.value.func.value.id and t.id not in loads([s.iter, body.value.args[0]] + ifs):
                        def go(b=b, i=i, s=s, p=p, body=body, ifs=ifs):
                            p.value = ast.ListComp(body.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])
                            del b[i]
                        out.append(go)
    return out


def t_enumerate(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.For):
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 \
                    and simple(it.args[0]) and isinstance(n.target, ast.Tuple):
                def go(n=n, it=it):
                    i, x = n.target.elts
                    seq = it.args[0]
                    n.target = i
                    n.iter = ast.parse(f"range(len({ast.unparse(seq)}))", mode="eval").body
                    n.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load())))
                out.append(go)
            elif not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate"):
                def go2(n=n, it=it):
                    n.iter = call("enumerate", it)
                    n.target = ast.Tuple([ast.Name("_pos", ast.Store()), n.target], ast.Store())
                out.append(go2)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and simple(it.func.value) and isinstance(n.target, ast.Tuple) \
                    and isinstance(n.target.elts[0], ast.Name):
                def go3(n=n, it=it):
                    k, v = n.target.elts
                    d = it.func.value
                    n.iter = d
                    n.target = k
                    if isinstance(k, ast.Name):
                        n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
                out.append(go3)
    return out


def t_iter_local(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                def go(b=b, i=i, s=s):
                    it = s.iter
                    s.iter = ast.Name("items_to_visit", ast.Load())
                    b.insert(i, ast.Assign([ast.Name("items_to_visit", ast.Store())], it))
                out.append(go)
    return out


def t_aug(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not isinstance(s.value, (ast.List, ast.ListComp)):
                if isinstance(s.target, ast.Subscript) and not simple(s.target.slice):
                    continue

                def go(b=b, i=i, s=s):
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                out.append(go)
    return out


def t_ifexp(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                def go(b=b, i=i, s=s):
                    e = s.value
                    a, c = copy.deepcopy(s), copy.deepcopy(s)
                    a.value, c.value = e.body, e.orelse
                    b[i] = ast.If(e.test, [a], [c])
                out.append(go)
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                    def go2(b=b, i=i, s=s, x=x, y=y):
                        b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    out.append(go2)
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    def go3(b=b, i=i, s=s, x=x, y=y):
                        b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    out.append(go3)
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value \
                    and i + 1 < len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value:
                def go4(b=b, i=i, s=s):
                    b[i:i + 2] = [ast.Return(ast.IfExp(s.test, s.body[0].value, b[i + 1].value))]
                out.append(go4)
    return out


def pure(e):
    return not has([e], (ast.Call, ast.NamedExpr, ast.Await)) or all(
        isinstance(c.func, ast.Name) and c.func.id in ("len", "int", "float", "tuple", "list", "str", "set", "sorted", "min", "max", "abs", "bool")
        for c in ast.walk(e) if isinstance(c, ast.Call))


def t_swap(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i in range(len(b) - 1):
            x, y = b[i], b[i + 1]
            if all(isinstance(z, (ast.Assign, ast.AnnAssign)) and z.value is not None and pure(z.value) for z in (x, y)):
                tx = x.targets[0] if isinstance(x, ast.Assign) else x.target
                ty = y.targets[0] if isinstance(y, ast.Assign) else y.target
                ux, uy = ast.unparse(tx), ast.unparse(ty)
                if not isinstance(tx, (ast.Name, ast.Attribute)) or not isinstance(ty, (ast.Name, ast.Attribute)):
                    continue
                if ux in ast.unparse(y.value) or uy in ast.unparse(x.value) or ux == uy or ux in uy or uy in ux:
                    continue

                def go(b=b, i=i):
                    b[i], b[i + 1] = b[i + 1], b[i]
                out.append(go)
    return out


def t_flip(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            def go(n=n):
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [FLIP[type(n.ops[0])]()]
            out.append(go)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEG:
            def go2(n=n):
                old = copy.copy(n)
                new = ast.Compare(n.left, [NEG[type(n.ops[0])]()], n.comparators)
                n.left, n.ops, n.comparators = ast.UnaryOp(ast.Not(), new), [ast.Is()], [ast.Constant(True)]
            # `(not (a != b)) is True` is odd; use a wrapper via BoolOp instead
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            def go3(n=n):
                parts, left = [], n.left
                for op, r in zip(n.ops, n.comparators):
                    parts.append(ast.Compare(left, [op], [r]))
                    left = r
                new = ast.BoolOp(ast.And(), parts)
                replace(ctx.fn, n, new)
            out.append(go3)
    return out


def t_not_neg(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and type(n.test.ops[0]) in NEG:
            def go(n=n):
                n.test = ast.UnaryOp(ast.Not(), ast.Compare(n.test.left, [NEG[type(n.test.ops[0])]()], n.test.comparators))
            out.append(go)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.Set, ast.List)) \
                and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts) and simple(n.left):
            def go2(n=n):
                eq = isinstance(n.ops[0], ast.In)
                replace(ctx.fn, n, ast.BoolOp(ast.Or() if eq else ast.And(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if eq else ast.NotEq()], [e]) for e in n.comparators[0].elts]))
            out.append(go2)
    return out


def t_messages(ctx):
    def go():
        for n in ast.walk(ctx.fn):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and n.exc.args:
                n.exc.args[0] = ast.Constant("changed message")
        ctx.fn.body.insert(1 if is_doc(ctx.fn.body[0]) and len(ctx.fn.body) > 1 else 0, parse1(
            "import logging as _lg") if not any("njit" in d for d in ctx.deco) else ast.Pass())
    out = [go]

    def go2():
        k = 1 if is_doc(ctx.fn.body[0]) and len(ctx.fn.body) > 1 else 0
        ctx.fn.body.insert(k, parse1("unused_marker = None"))
    out.append(go2)
    return out


def t_inline(ctx):
    """Inline a local that is assigned once and used once in the next statement."""
    out = []
    cnt = {}
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.Name):
            cnt.setdefault(n.id, []).append(n)
    for b in blocks(ctx.fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                nxt = b[i + 1]
                if len(cnt[nm]) == 2 and isinstance(nxt, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)):
                    use = next((x for x in cnt[nm] if isinstance(x.ctx, ast.Load)), None)
                    if use is not None and outermost(nxt, use):
                        if not pure(s.value) and has([nxt], ast.Call) and sum(isinstance(z, ast.Call) for z in ast.walk(nxt)) > 1:
                            continue

                        def go(b=b, i=i, s=s, nxt=nxt, use=use):
                            replace(nxt, use, s.value)
                            del b[i]
                        out.append(go)
    return out


def t_self_local(ctx):
    """Hoist a read-only self.attr into a local when the function makes no method calls that could rebind it."""
    if ctx.kind != "self" or ctx.fn.name == "__init__" or has(ctx.fn.body, (ast.FunctionDef,)):
        return []
    me = params(ctx.fn)[0]
    attrs, stored, called = {}, set(), False
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            attrs.setdefault(n.attr, []).append(n)
            if not isinstance(n.ctx, ast.Load):
                stored.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
            called = True
            stored.add(n.func.attr)
    out = []
    if called:
        return []
    for a, ns in attrs.items():
        if a in stored:
            continue
        first = ctx.fn.body[1 if is_doc(ctx.fn.body[0]) else 0]
        if not any(x is ns[0] or any(x is y for y in ns) for x in ast.walk(first)):
            continue

        def go(a=a, ns=ns):
            new = parse1(f"own_{a} = {me}.{a}")
            for n in ns:
                replace(ctx.fn, n, ast.Name(f"own_{a}", ast.Load()))
            ctx.fn.body.insert(1 if is_doc(ctx.fn.body[0]) else 0, new)
        out.append(go)
    return out


def t_unpack(ctx):
    out = []
    for b in blocks(ctx.fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts) \
                    and isinstance(s.value, (ast.Name, ast.Attribute, ast.Call)):
                def go(b=b, i=i, s=s):
                    els = s.targets[0].elts
                    b[i:i + 1] = [ast.Assign([ast.Name("pair", ast.Store())], s.value)] + [
                        parse1(f"{e.id} = pair[{j}]") for j, e in enumerate(els)]
                out.append(go)
    return out


def t_module_const(ctx):
    out = []
    skip = {id(x) for n in ast.walk(ctx.fn) for a in (getattr(n, "annotation", None), getattr(n, "returns", None)) if a for x in ast.walk(a)}
    skip |= {id(x) for d in ctx.fn.decorator_list for x in ast.walk(d)}
    for n in ast.walk(ctx.fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and not isinstance(n.value, bool) and n.value not in (0, 1, ""):
            if any(isinstance(p, (ast.JoinedStr, ast.FormattedValue)) and any(x is n for x in ast.walk(p)) for p in ast.walk(ctx.fn)):
                continue
            if any(is_doc(s) and s.value is n for b in blocks(ctx.fn) for s in b):
                continue
            if any(isinstance(p, ast.Raise) and any(x is n for x in ast.walk(p)) for p in ast.walk(ctx.fn)):
                continue
            if n in ctx.fn.args.defaults or n in ctx.fn.args.kw_defaults:
                continue

            def go(n=n):
                replace(ctx.fn, n, ast.Name("_NAMED_CONSTANT", ast.Load()))
                k = next((j for j, s in enumerate(ctx.tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), 0)
                ctx.tree.body.insert(k, ast.Assign([ast.Name("_NAMED_CONSTANT", ast.Store())], ast.Constant(n.value)))
            out.append(go)
    return out


def t_kw(ctx):
    """keyword <-> positional for calls of functions of the same module / self methods."""
    out = []
    defs = {}
    for n in ast.walk(ctx.tree):
        if isinstance(n, ast.FunctionDef):
            defs.setdefault(n.name, []).append(n)
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") else None
            if nm is None or len(defs.get(nm, ())) != 1:
                continue
            d = defs[nm][0]
            if d.args.vararg or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            ps = [a.arg for a in d.args.args]
            if ps and ps[0] in ("self", "cls"):
                ps = ps[1:]
            if n.args and len(n.args) <= len(ps):
                def go(n=n, ps=ps):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []
                out.append(go)
            if n.keywords:
                def go2(n=n, ps=ps):
                    kw = {k.arg: k.value for k in n.keywords}
                    pos = list(n.args)
                    for p in ps[len(pos):]:
                        if p not in kw:
                            break
                        pos.append(kw.pop(p))
                    n.args = pos
                    n.keywords = [k for k in n.keywords if k.arg in kw]
                out.append(go2)
            if len(n.keywords) > 1:
                def go3(n=n):
                    n.keywords.reverse()
                out.append(go3)
    return out


def t_get(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and simple(n.func.value) and n.args and simple(n.args[0]):
            def go(n=n):
                d = n.func.value
                dflt = n.args[1] if len(n.args) > 1 else ast.Constant(None)
                replace(ctx.fn, n, ast.IfExp(ast.Compare(copy.deepcopy(n.args[0]), [ast.In()], [copy.deepcopy(d)]),
                                             ast.Subscript(copy.deepcopy(d), n.args[0], ast.Load()), dflt))
            out.append(go)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.Set)) \
                and all(isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            def go2(n=n):
                c = n.comparators[0]
                n.comparators[0] = (ast.Set if isinstance(c, ast.Tuple) else ast.Tuple)(c.elts) if isinstance(c, ast.Tuple) else ast.Tuple(c.elts, ast.Load())
            out.append(go2)
    return out


def t_empty(ctx):
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.Gt)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0 \
                    and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == "len":
                def go(n=n, t=t):
                    n.test = ast.UnaryOp(ast.Not(), t.left) if isinstance(t.ops[0], ast.Eq) else ast.Compare(t.left, [ast.GtE()], [ast.Constant(1)])
                out.append(go)
    return out


def t_all_names(ctx):
    """Commute commutative arithmetic on numbers."""
    out = []
    for n in ast.walk(ctx.fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not has([n], (ast.List, ast.Tuple, ast.ListComp)) and pure(n):
            def go(n=n):
                n.left, n.right = n.right, n.left
            out.append(go)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and pure(n):
            def go2(n=n):
                new = ast.BinOp(ast.BinOp(ast.Constant(1.0), ast.Div(), n.right), ast.Mult(), n.left)
                replace(ctx.fn, n, new)
            if not isinstance(n.left, ast.Call) and "path" not in ast.unparse(n).lower() and "dir" not in ast.unparse(n).lower():
                out.append(go2)
    return out


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_") and callable(v)}


def variants(program, quals, root, kind=None):
    from kstat.mutate import find
    by = {}
    for q in sorted(quals):
        try:
            f = program.get_func(q)
        except Exception:
            continue
        by.setdefault(f.module.path, []).append(f)
    for rel, fns in sorted(by.items()):
        path = os.path.join(root, rel)
        if not os.path.exists(path):
            continue
        with open(path) as fh:
            src = fh.read()
        base = ast.parse(src)

        def fresh(f):
            tree = copy.deepcopy(base)
            node = find(tree, f)
            if node is None:
                return None
            par = tree
            for n in ast.walk(tree):
                if isinstance(n, ast.ClassDef) and node in n.body:
                    par = n
            return Ctx(tree, node, par)
        for f in fns:
            c0 = fresh(f)
            if c0 is None:
                continue
            for k, t in KINDS.items():
                if kind and k != kind:
                    continue
                n = len(t(c0))
                for i in range(n):
                    c = fresh(f)
                    t(c)[i]()
                    try:
                        text = ast.unparse(ast.fix_missing_locations(c.tree))
                        ast.parse(text)
                    except Exception as e:
                        print("generator error", f.qual, k, i, e)
                        continue
                    yield f"{f.qual}:{k}#{i}", rel, text


def one(job):
    pid, label, rel, text = job
    from check import run_property
    _, c = run_property(pid, os.environ.get("KROOT", "/repo"), "quick", overlay={rel: ast.parse(text)})
    ne = [o for o in c.obs if o.verdict == "NE"]
    if ne:
        return pid, label, "NE", "; ".join(f"{o.oid}: {o.why}" for o in ne)
    u = [o for o in c.obs if o.verdict == "UNKNOWN"]
    if not [o for o in c.obs if o.verdict == "EQ"]:
        return pid, label, "NOANSWER", ""
    return pid, label, "UNKNOWN" if u else "EQ", "; ".join(f"{o.oid}: {o.why}" for o in u)


def big(job):
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(one(job)))
    t.start()
    t.join()
    return out[0] if out else (job[0], job[1], "ERROR", "")


def base(pid, out):
    from check import run_property
    out.append(run_property(pid, os.environ.get("KROOT", "/repo"), "quick")[1])


def main():
    pids = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    kind = sys.argv[3] if len(sys.argv) > 3 else None
    show = os.environ.get("SHOW", "NE")
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    if pids == "all":
        pids = sorted("P" + f[1:-3] for f in os.listdir(os.path.join(HERE, "props")) if f[0] == "p" and f[1:3].isdigit())
    else:
        pids = pids.split(",")
    jobs = []
    for pid in pids:
        out = []
        t = threading.Thread(target=base, args=(pid, out))
        t.start()
        t.join()
        c = out[0]
        quals = c.analysed if not (pid == "P01" and not pat) else [q for q in c.analysed if "simulator" in q or "hop" in q]
        jobs += [(pid, l, r, x) for l, r, x in variants(c.program, quals, os.environ.get("KROOT", "/repo"), kind) if pat in l]
    n, bykind = {}, {}
    with mp.Pool(8) as pool:
        for pid, label, v, why in pool.imap(big, jobs, chunksize=4):
            n[v] = n.get(v, 0) + 1
            k = label.rpartition(":")[2].split("#")[0]
            bykind.setdefault(k, {}).setdefault(v, 0)
            bykind[k][v] += 1
            if v in ("NE", "NOANSWER", "ERROR") or show == "all" and v != "EQ":
                print(v, pid, label.split("kmcpy.", 1)[-1], "|", why[:300], flush=True)
    print(n)
    for k, v in sorted(bykind.items()):
        print("  ", k, v)


if __name__ == "__main__":
    main()
