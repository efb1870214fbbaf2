"""Forward dataflow over the value-term domain.

One pass per function body: branches are merged with gated (`ite`) terms,
loops are summarised in closed normal forms (map / filter / sum / exists /
first / fold), calls to package code are inlined up to a bound, every store,
mutation, raise and opaque call is recorded as an effect with its guard and
loop context.  No path is enumerated and nothing is executed.
"""
from __future__ import annotations

import ast
import itertools

from .program import AnalysisError, Class, Func, Module, _dotted, strip_opt
from .terms import (BOOL_OPS, FALSE, NONE, T, TRUE, and_, cmp, cond, const, contains, cval, selected, exists, fresh,
                    fresh_bv, is_const, ite, ite_bool, mk, not_, or_, subst, subterms, truthy_const)

MAX_DEPTH = 14
UNROLL = 40

EXC_PARENTS = {
    "KeyError": {"LookupError"}, "IndexError": {"LookupError"},
    "FileNotFoundError": {"OSError", "IOError"}, "FileExistsError": {"OSError", "IOError"},
    "ImportError": set(), "ModuleNotFoundError": {"ImportError"},
    "JSONDecodeError": {"ValueError"}, "UnicodeDecodeError": {"ValueError"},
    "NotImplementedError": {"RuntimeError"},
}

LIST_CTORS = {"builtins.list", "numba.typed.List", "numba.typed.typedlist.List"}
ARRAY_CTORS = {"numpy.empty", "numpy.zeros", "numpy.full", "numpy.ones", "numpy.empty_like",
               "numpy.zeros_like", "numpy.full_like"}
FRESH_CALLS = LIST_CTORS | ARRAY_CTORS | {
    "builtins.dict", "builtins.set", "numpy.array", "numpy.asarray", "numpy.copy", "copy.copy", "copy.deepcopy",
    "numpy.arange", "collections.defaultdict", "collections.OrderedDict", "collections.deque",
    "builtins.sorted", "builtins.frozenset", "collections.Counter"}
MUTATORS = {"append", "extend", "add", "update", "pop", "clear", "insert", "remove", "sort",
            "setdefault", "discard", "popitem", "reverse", "fill", "put", "itemset", "appendleft", "popleft"}
LOG_METHODS = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "setLevel"}
IMPURE_METHODS = {"random", "integers", "choice", "uniform", "normal", "shuffle", "permutation",
                  "exponential", "standard_normal", "read", "readline"}
TRANSPARENT_DECORATORS = {"property", "staticmethod", "classmethod", "njit", "jit", "abstractmethod",
                          "vectorize", "override", "wraps", "setter", "deprecated", "final"}


class Effect:
    __slots__ = ("kind", "target", "value", "guard", "loops", "seq", "fn", "node", "stack")

    def __init__(self, kind, target, value, guard, loops, seq, fn, node, stack):
        self.kind, self.target, self.value, self.guard = kind, target, value, guard
        self.loops, self.seq, self.fn, self.node, self.stack = loops, seq, fn, node, stack

    @property
    def where(self):
        line = getattr(self.node, "lineno", 0)
        return f"{self.fn.module.path}:{line} ({self.fn.qual})"

    def __repr__(self):
        return f"<{self.kind} {self.target} := {self.value} if {self.guard} loops={len(self.loops)}>"


class Summary:
    def __init__(self, func, ret, effects, params, visited, interp, always_raises=False):
        self.func, self.ret, self.effects, self.params = func, ret, effects, params
        self.visited, self.interp, self.always_raises = visited, interp, always_raises

    def raises(self):
        return [e for e in self.effects if e.kind == "raise"]

    def raise_cond(self):
        """Disjunction of all raise conditions, loops closed existentially."""
        out = []
        for e in self.raises():
            out.append(close(e.guard, e.loops))
        return or_(*out) if out else FALSE


def close(guard, loops):
    g = guard
    for dom, bv in reversed(loops):
        if contains(g, bv):
            g = exists(dom, g)
        elif g is not FALSE:
            g = and_(g, mk("nonempty", dom)) if False else g
    return g


class Frame:
    def __init__(self, func, module, env, closure=None, base=0):
        self.func, self.module, self.env, self.closure = func, module, env, closure
        self.rets, self.base, self.loopstack = [], base, []
        self.yields = None
        self.globals_decl = set()


class LoopCtx:
    def __init__(self, base):
        self.base, self.conts, self.brks, self.rets = base, [], [], None


def ite_leaves(t):
    if t.op == "ite":
        return ite_leaves(t.a[1]) + ite_leaves(t.a[2])
    return [t]


class GaveUp(Exception):
    """A construct the engine does not follow: the obligation stays undecided."""


class Interp:
    TUPLE = "tuple"

    def __init__(self, program, opaque=(), ptypes=None, inline_classes=None, max_depth=MAX_DEPTH, inline_filter=None):
        self.program = program
        self.opaque = set(opaque)
        self.ptypes = ptypes or {}
        self.inline_classes = inline_classes
        self.inline_filter = inline_filter
        self.max_depth = max_depth
        self.heap, self.effects = {}, []
        self.types, self.bvdom = {}, {}
        self.live, self.outer = TRUE, []
        self.loops, self.stack = (), []
        self.visited, self.closures = set(), {}
        self.recording = True
        self.seq = itertools.count()
        self.alloc_n = itertools.count()
        self.alloc_cls = {}
        self.frame = None
        self.dead_raise = False
        self.const_cache = {}
        self.const_busy = set()
        self.occ = {}
        self.steps = 0
        self.exact = set()
        self.virt_cache = {}
        self.obj_of, self.origin = {}, {}
        self.nested = set()

    # ================================================================ public
    def summarize(self, func, args=None, self_type=None):
        """Summarise a function analysed with symbolic parameters."""
        names, vararg, kwonly, kwarg = func.params()
        env, params = {}, {}
        args = args or {}
        for i, n in enumerate(names + kwonly):
            if n in args:
                env[n] = args[n]
            elif i == 0 and func.cls is not None and func.is_class:
                env[n] = mk("classref", func.cls.qual)
            else:
                env[n] = mk("p", n)
            params[n] = env[n]
            if i == 0 and func.cls is not None and not func.is_static and not func.is_class:
                self.types[env[n]] = ("cls", self_type or func.cls)
                self.exact.add(env[n])
            else:
                ty = self.program.ann_type(func.module, func.annotation(n))
                if n in self.ptypes:
                    ty = ("cls", self.program.get_class(self.ptypes[n]))
                if ty is not None and env[n] not in self.types:
                    self.types[env[n]] = ty
        if vararg:
            env[vararg.arg] = mk("p", "*" + vararg.arg)
        if kwarg:
            env[kwarg.arg] = mk("p", "**" + kwarg.arg)
        ret, raised = self.run_body(func, env)
        return Summary(func, self.with_attrs(self.deref(ret)), self.effects, params, self.visited, self, raised)

    def with_attrs(self, t):
        """Objects built here, together with the attributes set on them after construction."""
        put = {}
        for k, v in self.heap.items():
            if k[0] == "attr" and k[1].op == "new":
                put.setdefault(k[1], []).append(("." + k[2], self.deref(v)))
        put = {o: mk("new", o.a[0], tuple(sorted(o.a[1] + tuple(a), key=lambda x: x[0]))) for o, a in put.items()}
        return subst(t, put) if put else t

    def run_body(self, func, env, closure=None):
        fr = Frame(func, func.module, env, closure, base=len(self.outer) + 1)
        saved = (self.frame, self.live, self.dead_raise)
        self.outer.append(self.live)
        self.frame, self.live, self.dead_raise = fr, TRUE, False
        self.stack.append(func.qual)
        self.visited.add(func.qual)
        is_gen = _is_generator(func.node)
        if is_gen:
            a = self.new_alloc(mk("list"))
            fr.yields = a
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body)
                fr.rets.append((TRUE, v, dict(self.heap)))
                self.live = FALSE
            else:
                self.block(func.node.body)
        finally:
            self.stack.pop()
            self.outer.pop()
        raised = self.live is FALSE and not fr.rets
        if is_gen:
            ret, raised = fr.yields, False
        else:
            ret = NONE
            if self.live is FALSE and fr.rets:
                ret, self.heap = fr.rets[-1][1], dict(fr.rets[-1][2])
                cases = fr.rets[:-1]
            else:
                cases = fr.rets
            for g, v, h in reversed(cases):
                here = self.heap
                if v is not ret:
                    ret = ite(g, self._deref_in(v, h), self._deref_in(ret, here))
                self.merge(g, ({}, h), ({}, here))
        self.frame, self.live, self.dead_raise = saved
        return ret, raised

    # ================================================================ helpers
    def guard(self, base=0):
        return and_(*self.outer[base:], self.live)

    def effect(self, kind, target, value, node):
        if not self.recording:
            return
        g = self.guard()
        if g is FALSE:
            return
        fn = self.frame.func if self.frame else None
        self.effects.append(Effect(kind, target, value, g, self.loops, next(self.seq), fn, node, tuple(self.stack)))

    def new_alloc(self, content, cls=None):
        a = mk("alloc", next(self.alloc_n))
        self.heap[("cont", a)] = content
        if content.op == "call" and content.a[0] == "collections.defaultdict":
            self.nested.add(a)
        if cls is not None:
            self.alloc_cls[a] = cls
            self.types[a] = ("cls", cls)
            self.exact.add(a)
        return a

    def deref(self, t, _d=0):
        if not isinstance(t, T) or _d > 8:
            return t
        if t.op == "alloc":
            if t in self.alloc_cls:
                attrs = []
                for k, v in self.heap.items():
                    if k[0] == "attr" and k[1] is t:
                        attrs.append((k[2], self.deref(v, _d + 1)))
                return mk("obj", self.alloc_cls[t].qual, tuple(sorted(attrs, key=lambda x: x[0])))
            if ("cont", t) not in self.heap and t in self.origin:
                return self.origin[t]
            return self.deref(self.heap.get(("cont", t), t), _d + 1)
        if t in self.obj_of:
            v = self.heap.get(("cont", self.obj_of[t]))
            if v is not None and v is not t:
                return v if v in self.obj_of else self.deref(v, _d + 1)
            return t
        if t.op == "ite" and any(x in self.obj_of for x in ite_leaves(t)):
            return ite(t.a[0], self.deref(t.a[1], _d + 1), self.deref(t.a[2], _d + 1))
        if t.op in ("list", "tuple", "set", "dict", "ite", "call", "mcall", "new", "append", "setitem"):
            if any(x.op == "alloc" for x in subterms(t)):
                return subst(t, {x: self.deref(x, _d + 1) for x in subterms(t) if x.op == "alloc"})
        return t

    def shallow(self, t):
        """Contents of an object, nested references kept."""
        n = 0
        while t.op == "alloc" and t not in self.alloc_cls and n < 8:
            n += 1
            t = self.heap.get(("cont", t), self.origin.get(t, t))
        return t

    def val(self, node):
        return self.deref(self.ev(node))

    def typeof(self, t):
        ty = self.types.get(t)
        if ty is not None:
            return strip_opt(ty)
        r = None
        if t.op == "attr":
            bt = self.typeof(t.a[0])
            if bt and bt[0] == "cls":
                r = self.program.attr_type(bt[1], t.a[1])
        elif t.op in ("elem", "item"):
            bt = self.typeof(t.a[0])
            if bt and bt[0] in ("list", "dict"):
                r = bt[1]
        elif t.op == "call" and isinstance(t.a[0], str):
            k, o = self.program.resolve(t.a[0])
            if k == "func":
                r = self.program.ann_type(o.module, o.node.returns)
        elif t.op in ("new", "obj"):
            c = self.program.get_class(t.a[0], required=False)
            r = ("cls", c) if c else None
        elif t.op == "ite":
            r1, r2 = self.typeof(t.a[1]), self.typeof(t.a[2])
            if r1 == r2:
                r = r1
            elif t.a[1] is NONE:
                r = r2
            elif t.a[2] is NONE:
                r = r1
        elif t.op in ("first", "last"):
            r = self.typeof(t.a[2])
        r = strip_opt(r)
        return r

    def cls_of(self, t):
        ty = self.typeof(t)
        return ty[1] if ty and ty[0] == "cls" else None

    # ================================================================ statements
    def block(self, stmts):
        for st in stmts:
            if self.live is FALSE:
                break
            self.steps += 1
            self.stmt(st)

    def stmt(self, st):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            self.effect("unsupported", mk("unk", type(st).__name__), NONE, st)
            return
        m(st)

    def s_Pass(self, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value)

    def s_Import(self, st):
        for al in st.names:
            n = al.asname or al.name.split(".")[0]
            self.frame.env[n] = mk("g", al.name if al.asname else al.name.split(".")[0])

    def s_ImportFrom(self, st):
        base = self.frame.module.resolve_from(st)
        for al in st.names:
            self.frame.env[al.asname or al.name] = self.ref(f"{base}.{al.name}")

    def s_FunctionDef(self, st):
        f = Func(self.frame.module, st, f"{self.frame.func.qual}.<locals>.{st.name}")
        t = mk("fn", f.qual, next(self.alloc_n))
        self.closures[t] = (f, self.frame)
        self.frame.env[st.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st):
        self.frame.env[st.name] = mk("unk", "class " + st.name)

    def s_Return(self, st):
        if isinstance(st.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in st.value.elts):
            # references stay references when the caller unpacks the tuple
            v = mk(self.TUPLE, *[self.ev(e) for e in st.value.elts])
        else:
            v = self.ev(st.value) if st.value is not None else NONE
        self.add_return(v)
        self.live, self.dead_raise = FALSE, False

    def add_return(self, v, extra=TRUE):
        for lc in reversed(self.frame.loopstack):
            if lc.rets is not None:
                lc.rets.append((and_(self.guard(lc.base), extra), v))
                return
        self.frame.rets.append((and_(self.guard(self.frame.base), extra), v, dict(self.heap)))

    def s_Raise(self, st):
        exc = self.raise_type(st.exc)
        pure = self.live is TRUE
        self.effect("raise", mk("unk", exc), NONE, st)
        if self.frame.loopstack and not pure:
            pass
        self.live, self.dead_raise = FALSE, pure

    def raise_type(self, node):
        if node is None:
            return "<reraise>"
        if isinstance(node, ast.Call):
            # evaluate arguments for side effects only when they are calls
            node = node.func
        d = _dotted(node)
        return d.split(".")[-1] if d else "<expr>"

    def s_Assert(self, st):
        c = cond(self.val(st.test))
        if c is TRUE:
            return
        self.outer.append(not_(c))
        self.effect("raise", mk("unk", "AssertionError"), NONE, st)
        self.outer.pop()

    def s_Delete(self, st):
        for tg in st.targets:
            if isinstance(tg, ast.Name):
                self.frame.env.pop(tg.id, None)
            elif isinstance(tg, ast.Subscript):
                base = self.ev(tg.value)
                if isinstance(tg.slice, ast.Slice):
                    idx = self.slice_term(tg.slice)
                else:
                    idx = self.val(tg.slice)
                self.mutate(base, "delitem", (idx,), tg)
            elif isinstance(tg, ast.Attribute):
                base = self.ev(tg.value)
                self.effect("del", mk("attr", self.deref(base), tg.attr), NONE, tg)

    def s_Assign(self, st):
        v = self.ev(st.value)
        for tg in st.targets:
            self.assign(tg, v, st)

    def s_AnnAssign(self, st):
        if st.value is not None:
            v = self.ev(st.value)
            self.assign(st.target, v, st)

    def s_AugAssign(self, st):
        op = OPS.get(type(st.op), "?")
        rhs = self.val(st.value)
        tg = st.target
        if isinstance(tg, ast.Name):
            cur = self.ev(tg)
            if cur.op == "alloc" and op in ("+", "|"):
                if op == "|":
                    self.mutate(cur, "update", (rhs,), st)
                    return
                cont = self.deref(cur)
                if is_seq(cont):
                    self.mutate(cur, "extend", (rhs,), st)
                    return
            if cur.op == "alloc":
                self.heap[("cont", cur)] = self.binop(op, self.deref(cur), rhs)
                return
            self.frame.env[tg.id] = self.binop(op, self.deref(cur), rhs)
        elif isinstance(tg, ast.Attribute):
            base = self.ev(tg.value)
            cur = self.getattr(base, tg.attr, st)
            self.setattr(base, tg.attr, self.binop(op, self.deref(cur), rhs), st)
        elif isinstance(tg, ast.Subscript):
            base = self.ev(tg.value)
            idx = self.slice_or_val(tg.slice)
            cur = self.getitem(base, idx)
            self.setitem(base, idx, self.binop(op, self.deref(cur), rhs), st)

    def assign(self, tg, v, node):
        if isinstance(tg, ast.Name):
            self.frame.env[tg.id] = self.maybe_alloc(v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            dv = v if v.op == self.TUPLE and len(v.a) == len(tg.elts) and not any(x.op == "star" for x in v.a) else self.deref(v)
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    lo, hi = i, n - i - 1
                    if dv.op in ("tuple", "list"):
                        self.assign(e.value, mk("list", *dv.a[lo:len(dv.a) - hi]), node)
                    else:
                        self.assign(e.value, mk("item", dv, mk("slice", const(lo), const(-hi) if hi else NONE, NONE)), node)
                    continue
                if star and i > star[0]:
                    self.assign(e, self.getitem(dv, const(i - n)), node)
                else:
                    self.assign(e, self.getitem(dv, const(i)), node)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value), tg.attr, v, node)
        elif isinstance(tg, ast.Subscript):
            if isinstance(tg.value, ast.Subscript):
                table = self.ev(tg.value.value)
                if table in self.nested and table not in self.origin:
                    key = self.slice_or_val(tg.value.slice)
                    self.set_nested(table, key, self.slice_or_val(tg.slice), self.maybe_alloc(v))
                    return
            if isinstance(tg.value, ast.Attribute) and tg.value.attr == "__dict__":
                obj, key = self.ev(tg.value.value), self.slice_or_val(tg.slice)
                if obj.op == "alloc" and obj in self.alloc_cls and key.op == "c" and key.a[0] == "str":
                    self.setattr(obj, cval(key), v, node)
                    return
            base = self.ev(tg.value)
            self.setitem(base, self.slice_or_val(tg.slice), self.maybe_alloc(v), node)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, node)

    def maybe_alloc(self, v):
        if v.op in ("list", "dict", "set", "map", "dictmap", "setof", "concat"):
            return self.new_alloc(v)
        if v.op == "call" and (v.a[0] in FRESH_CALLS or v.a[0].endswith(".copy") and v.a[0] in self.opaque):
            return self.new_alloc(v)
        if v.op == "mcall" and v.a[1] in ("copy",):
            return self.new_alloc(v)
        if v.op == "bin" and v.a[0] == "*" and "list" in (v.a[1].op, v.a[2].op):
            return self.new_alloc(v)
        if v.op == "ite" and fresh_leaves(v):
            return self.new_alloc(v)
        return v

    # ---------------------------------------------------------------- places
    def setattr(self, base, name, v, node):
        c = self.cls_of(base)
        if c is not None:
            for k in self.program.mro(c):
                if isinstance(k, Class) and name in k.setters:
                    self.call_func(k.setters[name], [base, v], {}, node)
                    return
        v = self.maybe_alloc(v)
        if base.op == "alloc":
            self.heap[("attr", base, name)] = v
            return
        b = self.deref(base)
        self.heap[("attr", b, name)] = v
        self.effect("store", mk("attr", b, name), self.deref(v), node)

    def setitem(self, base, idx, v, node):
        if idx.op == "call" and idx.a[0] in ("builtins.int",) and len(idx.a[1]) == 1:
            idx = idx.a[1][0]
        if idx.op == "slice" and all(x is NONE for x in idx.a):
            self.write_into(base, self.deref(v), node)
            return
        if base.op in ("ite", "call", "mcall", "bin") and base not in self.obj_of and all(
                x.op in ("alloc", "call", "dict", "list", "bin") or x.op == "mcall" and x.a[1] in ("copy", "astype", "tolist")
                for x in ite_leaves(base)):
            # a value held by a local name only: from here on it is one modified object
            now = self.deref(base)
            base = self.promote(base)
            del self.origin[base]
            self.heap[("cont", base)] = now
        elif base in self.obj_of:
            base = self.obj_of[base]
        elif base.op == "p" and (self.frame.loopstack or not is_const(idx)):
            base = self.promote(base)
        if base.op == "alloc":
            cont = self.shallow(base)
            self.heap[("cont", base)] = self.setitem_term(cont, idx, v)
            if base in self.origin:
                self.effect("store", mk("item", self.origin[base], idx), self.deref(v), node)
            return
        own = [k[1] for k, w in self.heap.items() if k[0] == "cont" and k[1] in self.nested and base.op == "item" and w is base.a[0]]
        if len(own) == 1:
            self.set_nested(own[0], base.a[1], idx, v)
            return
        place = self.place_key(base)
        if place is not None and place in self.heap:
            cur = self.deref(self.heap[place])
            if self.heap[place].op == "alloc":
                self.heap[("cont", self.heap[place])] = self.setitem_term(cur, idx, v)
            else:
                self.heap[place] = self.setitem_term(cur, idx, v)
        else:
            self.heap[("item", base, idx)] = v
        self.effect("store", mk("item", self.root_place(base), idx), self.deref(v), node)

    def set_nested(self, table, key, idx, v):
        """An entry of a local table of tables."""
        cont = self.shallow(table)
        self.heap[("cont", table)] = mk("setitem", cont, mk("path", key, idx), v)

    def write_into(self, ref, v, node):
        """Overwrite the contents of an existing array."""
        if ref.op != "alloc":
            ref = self.promote(ref)
        self.heap[("cont", ref)] = v
        if ref in self.origin:
            self.effect("store", self.origin[ref], v, node)

    def root_place(self, base):
        """The symbolic place a term was read from (for effect reporting)."""
        return self.origin.get(base, base)

    def place_key(self, base):
        if base.op == "attr":
            return ("attr", base.a[0], base.a[1])
        if base.op == "item":
            return ("item", base.a[0], base.a[1])
        return None

    def setitem_term(self, cont, idx, v):
        if cont.op == "dict" and all(is_const(k) for k, _ in cont.a) and is_const(idx):
            out, done = [], False
            for k, x in cont.a:
                if k is idx:
                    out.append((k, v))
                    done = True
                else:
                    out.append((k, x))
            if not done:
                out.append((idx, v))
            return mk("dict", *out)
        if cont.op == "list" and idx.op == "c" and idx.a[0] == "int" and -len(cont.a) <= cval(idx) < len(cont.a):
            out = list(cont.a)
            out[cval(idx)] = v
            return mk("list", *out)
        if cont.op == "setitem" and cont.a[1] is idx:
            return mk("setitem", cont.a[0], idx, v)
        return mk("setitem", cont, idx, v)

    def mutate(self, base, meth, args, node, kw=()):
        """Container mutation through a reference."""
        if base.op in ("ite", "item") and meth in ("append", "extend", "add", "insert", "update", "remove"):
            for k, w in self.heap.items():
                if k[0] != "cont" or w.op != "ite" or w.a[2].op != "setitem" or w.a[2].a[0] is not w.a[1]:
                    continue
                key, first = w.a[2].a[1], w.a[2].a[2]
                entry = ite(w.a[0], mk("item", w.a[1], key), first)
                if w.a[0] is cmp("in", key, w.a[1]) and base in (entry, mk("item", w, key)) and entry.op == "ite":
                    # an entry of a table that was first created when missing
                    old = ite(w.a[0], mk("item", w.a[1], key), self.deref(first))
                    self.heap[k] = self.setitem_term(w.a[1], key, self.mut_term(old, meth, args, kw))
                    if k[1] in self.origin:
                        self.effect("mutate", mk("item", self.origin[k[1]], key), mk("mut", meth, tuple(args), tuple(kw)), node)
                    return NONE
        if base.op == "ite":
            c = base.a[0]
            old = self.guard_extra(c)
            ra = self.mutate_if(c, base.a[1], meth, args, node, kw)
            self.guard_reset(old)
            old = self.guard_extra(not_(c))
            rb = self.mutate_if(not_(c), base.a[2], meth, args, node, kw)
            self.guard_reset(old)
            return ite(c, ra, rb)
        return self.mutate_if(TRUE, base, meth, args, node, kw)

    def guard_extra(self, c):
        old = self.live
        self.live = and_(self.live, c)
        return old

    def guard_reset(self, old):
        self.live = old

    def mutate_if(self, c, base, meth, args, node, kw):
        if base.op == "ite":
            return self.mutate(base, meth, args, node, kw)
        cont = self.deref(base)
        new = self.mut_term(cont, meth, args, kw)
        result = NONE
        if meth in ("pop", "popleft", "popitem"):
            result = mk("mcall", cont, meth, tuple(args), tuple(kw))
            if meth == "pop" and cont.op == "dict" and args and is_const(args[0]) and all(is_const(k) for k, _ in cont.a):
                hit = dict(cont.a).get(args[0])
                if hit is not None or len(args) == 2:
                    result = hit if hit is not None else args[1]
        elif meth == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            result = ite(cmp("in", k, cont), self.getitem(cont, k), d)
            if d.op == "list" and c is TRUE and base.op == "alloc" and base not in self.nested and new.op == "ite":
                # the entry itself, so that what is appended to it is kept
                result = mk("item", new, k)
        if base.op == "item" and base not in self.obj_of and base.a[0].op not in ("p", "attr", "item"):
            # an element of a local container whose contents are only known symbolically
            owners = [k for k, v in self.heap.items() if k[0] == "cont" and v is base.a[0]]
            if len(owners) == 1 and meth == "setdefault" and c is TRUE and owners[0][1] in self.nested and owners[0][1] not in self.origin:
                self.set_nested(owners[0][1], base.a[1], args[0], result)
                return result
            if len(owners) == 1:
                self.heap[owners[0]] = self.setitem_term(base.a[0], base.a[1], new if c is TRUE else ite(c, new, cont))
                return result
        if not is_const(base) and base.op not in ("list", "tuple", "dict", "set", "map", "concat", "dictmap", "setof"):
            ref = base if base.op == "alloc" else self.promote(base)
            self.heap[("cont", ref)] = new if c is TRUE else ite(c, new, cont)
            if ref in self.origin:
                self.effect("mutate", self.origin[ref], mk("mut", meth, tuple(args), tuple(kw)), node)
        return result

    def promote(self, t):
        """The object a symbolic term denotes, once it is modified in place."""
        a = self.obj_of.get(t)
        if a is None:
            a = mk("alloc", next(self.alloc_n))
            self.obj_of[t] = a
            self.origin[a] = t
            ty = self.typeof(t)
            if ty:
                self.types[a] = ty
        return a

    def mut_term(self, cont, meth, args, kw):
        if meth == "append" or meth == "add":
            if cont.op == "list" and meth == "append":
                return mk("list", *cont.a, args[0])
            if cont.op == "set" and meth == "add":
                return cont if args[0] in cont.a else mk("set", *cont.a, args[0])
            return mk("append" if meth == "append" else "setadd", cont, args[0])
        if meth == "extend":
            x = args[0]
            if cont.op == "list" and x.op in ("list", "tuple"):
                return mk("list", *cont.a, *x.a)
            return mk("extend", cont, x)
        if meth == "insert" and len(args) == 2 and args[0] is const(0):
            return mk("list", args[1], *cont.a) if cont.op == "list" else mk("concat", mk("list", args[1]), cont)
        if meth == "clear":
            return {"dict": mk("dict"), "set": mk("set")}.get(cont.op, mk("list"))
        if meth == "update":
            if len(args) == 1 and cont.op == "dict" and args[0].op == "dict":
                t = cont
                for k, v in args[0].a:
                    t = self.setitem_term(t, k, v)
                for k, v in kw:
                    t = self.setitem_term(t, const(k), v)
                return t
            if not args:
                t = cont
                for k, v in kw:
                    t = self.setitem_term(t, const(k), v)
                return t
            if len(args) == 1 and not kw and (cont.op in ("dict", "dictmerge") or self.typeof(cont) == "dict"):
                return mk("dictmerge", cont, args[0])
        if meth == "pop" and cont.op == "dict" and args and is_const(args[0]) and all(is_const(k) for k, _ in cont.a):
            return mk("dict", *[(k, v) for k, v in cont.a if k is not args[0]])
        if meth == "setdefault":
            k = args[0]
            d = args[1] if len(args) > 1 else NONE
            return ite(cmp("in", k, cont), cont, self.setitem_term(cont, k, d))
        if meth == "sort":
            return mk("call", "builtins.sorted", (cont,), tuple(kw))
        if meth == "delitem" and cont.op == "dict" and is_const(args[0]):
            return mk("dict", *[(k, v) for k, v in cont.a if k is not args[0]])
        if meth == "delitem" and args[0].op == "slice" and args[0].a[2] is NONE:
            lo, hi, _ = args[0].a
            if lo in (NONE, const(0)):
                return mk("item", cont, mk("slice", hi, NONE, NONE)) if hi is not NONE else mk("list")
            if hi is NONE:
                return mk("item", cont, mk("slice", NONE, lo, NONE))
        if meth == "delitem" and args[0] is const(0) and cont.op != "dict" and self.typeof(cont) != "dict":
            return mk("item", cont, mk("slice", const(1), NONE, NONE))
        if meth == "pop" and len(args) == 1 and args[0] is const(0) and not kw and cont.op not in ("dict", "set"):
            return mk("item", cont, mk("slice", const(1), NONE, NONE))
        if meth == "pop" and len(args) in (1, 2) and not kw:
            meth, args = "delitem", args[:1]  # what is left is the same; a missing key is judged with the raise conditions
        return mk("mutated", cont, meth, tuple(args), tuple(kw))

    # ---------------------------------------------------------------- control flow
    def snapshot(self):
        return dict(self.frame.env), dict(self.heap)

    def restore(self, snap):
        self.frame.env.clear()
        self.frame.env.update(snap[0])
        self.heap = dict(snap[1])

    def merge_maps(self, c, a, b, missing):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            va, vb = a.get(k), b.get(k)
            if va is None:
                va = missing(k, vb)
            if vb is None:
                vb = missing(k, va)
            if va is vb:
                out[k] = va
            elif isinstance(k, str) and va.op == "alloc" and vb.op == "alloc":
                out[k] = ite(c, self.deref(va), self.deref(vb))
            else:
                out[k] = ite(c, self._flat(va, a), self._flat(vb, b))
        return out

    def _flat(self, v, m):
        return v

    def merge(self, c, sa, sb):
        ha, hb = sa[1], sb[1]
        heap = {}
        for k in list(ha) + [k for k in hb if k not in ha]:
            va, vb = ha.get(k), hb.get(k)
            if va is vb:
                heap[k] = va
                continue
            if k[0] == "cont" and k[1] not in self.origin:
                if va is None or vb is None:
                    heap[k] = va if va is not None else vb
                    continue
            else:
                if va is None:
                    va = self.place_default(k)
                if vb is None:
                    vb = self.place_default(k)
            da = self._deref_in(va, ha)
            db = self._deref_in(vb, hb)
            heap[k] = ite(c, da, db)
        env = {}
        ea, eb = sa[0], sb[0]
        for k in list(ea) + [k for k in eb if k not in ea]:
            va, vb = ea.get(k), eb.get(k)
            if va is None:
                va = vb
            if vb is None:
                vb = va
            if va is vb:
                env[k] = va
            else:
                env[k] = ite(c, self._deref_in(va, ha), self._deref_in(vb, hb))
        self.frame.env.clear()
        self.frame.env.update(env)
        self.heap = heap

    def _deref_in(self, v, heap):
        if v.op in ("alloc",) or v.op in ("list", "tuple", "dict", "ite") or v in self.obj_of:
            saved, self.heap = self.heap, heap
            try:
                # keep object references symbolic so attribute heap stays linked
                if v.op == "alloc" and v in self.alloc_cls:
                    return v
                return self.deref(v)
            finally:
                self.heap = saved
        return v

    def place_default(self, k):
        if k[0] == "attr":
            return mk("attr", k[1], k[2])
        if k[0] == "item":
            return mk("item", k[1], k[2])
        if k[0] == "cont" and k[1] in self.origin:
            return self.origin[k[1]]
        return k[1]

    def s_If(self, st):
        c = cond(self.val(st.test))
        self.branch(c, lambda: self.block(st.body), lambda: self.block(st.orelse))

    def branch(self, c, run_a, run_b):
        if c is TRUE:
            run_a()
            return
        if c is FALSE:
            run_b()
            return
        L = self.live
        base = self.snapshot()
        # then
        self.outer.append(L)
        self.outer.append(c)
        self.live, self.dead_raise = TRUE, False
        run_a()
        la, ra, sa = self.live, self.dead_raise, self.snapshot()
        self.outer.pop()
        # else
        self.restore(base)
        self.outer.append(not_(c))
        self.live, self.dead_raise = TRUE, False
        run_b()
        lb, rb, sb = self.live, self.dead_raise, self.snapshot()
        self.outer.pop()
        self.outer.pop()
        if la is FALSE and lb is FALSE:
            self.live, self.dead_raise = FALSE, ra and rb and L is TRUE
            return
        if la is FALSE:
            self.restore(sb)
            self.live = and_(L, lb) if ra else and_(L, not_(c), lb)
        elif lb is FALSE:
            self.restore(sa)
            self.live = and_(L, la) if rb else and_(L, c, la)
        else:
            self.merge(c, sa, sb)
            self.live = and_(L, ite_bool(c, la, lb)) if not (la is TRUE and lb is TRUE) else L
        self.dead_raise = False

    def s_With(self, st):
        for it in st.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("ctx", self.deref(v)), st)
        self.block(st.body)

    s_AsyncWith = s_With

    def s_Try(self, st):
        body_imports = all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in st.body)
        if body_imports:
            self.block(st.body)
            self.block(st.orelse)
            self.block(st.finalbody)
            return
        pre = self.snapshot()
        n0 = len(self.effects)
        L = self.live
        self.outer.append(L)
        self.live, self.dead_raise = TRUE, False
        self.block(st.body)
        body_live, body_raise = self.live, self.dead_raise
        self.outer.pop()
        types = []
        for h in st.handlers:
            types.append(self.handler_types(h))
        caught_guards = [[] for _ in st.handlers]
        if self.recording:
            keep = []
            gone = []
            for e in self.effects[n0:]:
                if e.kind == "raise":
                    for i, ts in enumerate(types):
                        if self.catches(ts, e.target.a[0]):
                            caught_guards[i].append(close(e.guard, e.loops[len(self.loops):]))
                            if len(e.loops) == len(self.loops):
                                gone.append(e.guard)
                            break
                    else:
                        keep.append(e)
                else:
                    if gone:
                        # reached only when none of the caught raises before it happened
                        e.guard = and_(e.guard, not_(or_(*gone)))
                    keep.append(e)
            sig = tuple(sorted({_callee(x.target) for x in keep if x.kind == "call"}))
            self.effects[n0:] = keep
        else:
            sig = ()
        after = self.snapshot()
        merged_live = body_live
        all_snaps = []
        for i, h in enumerate(st.handlers):
            atom = mk("exc", tuple(sorted(types[i])), sig)
            c = or_(atom, *caught_guards[i]) if caught_guards[i] else atom
            self.restore(pre)
            # values computed in the body may already be visible in the handler: keep stores
            self.outer.append(L)
            self.outer.append(c)
            self.live, self.dead_raise = TRUE, False
            if h.name:
                self.frame.env[h.name] = mk("excval", tuple(sorted(types[i])))
            self.block(h.body)
            hl, hr = self.live, self.dead_raise
            self.outer.pop()
            self.outer.pop()
            all_snaps.append((c, hl, hr, self.snapshot()))
        self.restore(after)
        self.live, self.dead_raise = body_live, body_raise
        if self.live is not FALSE and st.orelse:
            self.outer.append(L)
            self.outer.append(not_(or_(*[x[0] for x in all_snaps])))
            self.block(st.orelse)
            self.outer.pop()
            self.outer.pop()
        cur_live = self.live
        dead_raise = self.dead_raise
        for c, hl, hr, snap in all_snaps:
            if hl is FALSE:
                if not hr and cur_live is not FALSE:
                    cur_live = and_(cur_live, not_(c))
                continue
            if cur_live is FALSE:
                self.restore(snap)
                cur_live = hl if body_raise else and_(c, hl)
                continue
            here = self.snapshot()
            self.merge(c, snap, here)
            if not (hl is TRUE and cur_live is TRUE):
                cur_live = ite_bool(c, hl, cur_live)
        self.live = and_(L, cur_live)
        self.dead_raise = dead_raise if self.live is FALSE else False
        if st.finalbody:
            live = self.live
            if live is FALSE:
                self.live = L
            self.block(st.finalbody)
            if live is FALSE:
                self.live = FALSE

    s_TryStar = s_Try

    def handler_types(self, h):
        if h.type is None:
            return ("BaseException",)
        if isinstance(h.type, ast.Tuple):
            return tuple((_dotted(e) or "?").split(".")[-1] for e in h.type.elts)
        return ((_dotted(h.type) or "?").split(".")[-1],)

    def catches(self, types, exc):
        parents = {exc, "Exception", "BaseException"} | EXC_PARENTS.get(exc, set())
        for c in self.program.classes():
            if c.name == exc:
                for k in self.program.mro(c):
                    parents.add(k.name if isinstance(k, Class) else str(k).split(".")[-1])
        return any(t in parents for t in types)

    def s_Continue(self, st):
        lc = self.frame.loopstack[-1]
        lc.conts.append((self.guard(lc.base), self.snapshot()))
        self.live, self.dead_raise = FALSE, False

    def s_Break(self, st):
        lc = self.frame.loopstack[-1]
        lc.brks.append((self.guard(lc.base), self.snapshot()))
        self.live, self.dead_raise = FALSE, False

    # ---------------------------------------------------------------- loops
    def s_For(self, st):
        it = self.val(st.iter)
        lit = self.literal_elems(it)
        if lit is None and it.op == "set" and len(it.a) <= UNROLL and all(x.op == "c" and x.a[0] == "str" for x in it.a):
            lit = sorted(it.a, key=cval)  # order-dependent bodies are the business of the determinism analysis
        if lit is not None:
            self.unrolled(st, lit)
            return
        dom, bv, elem = self.iteration(it)
        self.sym_loop(st, dom, bv, elem, None)

    s_AsyncFor = s_For

    def literal_elems(self, it):
        """Elements of a statically known, bounded iterable."""
        if it.op in ("tuple", "list") and len(it.a) <= UNROLL and not any(x.op == "star" for x in it.a):
            return list(it.a)
        if it.op == "dict" and len(it.a) <= UNROLL:
            return [k for k, _ in it.a]
        if it.op == "mcall" and it.a[0].op == "dict" and len(it.a[0].a) <= UNROLL:
            d = it.a[0]
            if it.a[1] == "items":
                return [mk("tuple", k, v) for k, v in d.a]
            if it.a[1] == "keys":
                return [k for k, _ in d.a]
            if it.a[1] == "values":
                return [v for _, v in d.a]
        if it.op == "call":
            f, a = it.a[0], it.a[1]
            if f in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted") and len(a) == 1:
                inner = self.literal_elems(a[0])
                if inner is not None and f == "builtins.sorted":
                    if all(is_const(x) for x in inner) and not it.a[2]:
                        try:
                            return sorted(inner, key=cval)
                        except TypeError:
                            return None
                    return None
                return inner
            if f == "builtins.enumerate" and len(a) == 1:
                inner = self.literal_elems(a[0])
                if inner is not None:
                    return [mk("tuple", const(i), x) for i, x in enumerate(inner)]
            if f == "builtins.zip":
                ins = [self.literal_elems(x) for x in a]
                if ins and all(x is not None for x in ins):
                    return [mk("tuple", *xs) for xs in zip(*ins)]
                known = [len(x) for x in ins if x is not None]
                if known and len(set(known)) == 1:
                    n = known[0]
                    cols = [x if x is not None else [self.getitem(y, const(i)) for i in range(n)]
                            for x, y in zip(ins, a)]
                    return [mk("tuple", *xs) for xs in zip(*cols)]
            if f == "builtins.range" and all(x.op == "c" and x.a[0] == "int" for x in a) and 1 <= len(a) <= 3:
                r = range(*[cval(x) for x in a])
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
            if f == "builtins.reversed" and len(a) == 1:
                inner = self.literal_elems(a[0])
                if inner is not None:
                    return inner[::-1]
        return None

    def iteration(self, it):
        """(domain, bound variable, element term) of a symbolic iteration."""
        bv = fresh_bv()
        dom, elem = self.iter_parts(it, bv)
        self.bvdom[bv] = dom
        return mk("bind", dom, bv), bv, elem

    def iter_parts(self, it, bv):
        if it.op == "call" and isinstance(it.a[0], str):
            f, a = it.a[0], it.a[1]
            if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) == 1:
                return self.iter_parts(a[0], bv)
            if f in LIST_CTORS and len(a) == 1:
                return self.iter_parts(a[0], bv)
            if f in ("numpy.array", "numpy.asarray") and len(a) >= 1:
                return self.iter_parts(a[0], bv)
            if f in ("builtins.range", "numpy.arange"):
                if len(a) == 1:
                    lo, hi, stp = const(0), a[0], const(1)
                elif len(a) == 2:
                    lo, hi, stp = a[0], a[1], const(1)
                elif len(a) == 3:
                    lo, hi, stp = a
                else:
                    return mk("dom", "seq", it), mk("elem", it, bv)
                if lo is const(0) and stp is const(1):
                    if hi.op == "call" and hi.a[0] == "builtins.len" and len(hi.a[1]) == 1:
                        d, _ = self.iter_parts(hi.a[1][0], bv)
                        return d, bv
                    return mk("dom", "range", hi), bv
                if stp is const(1):
                    # shift to zero based
                    return mk("dom", "range", self.binop("-", hi, lo)), self.binop("+", lo, bv)
                return mk("dom", "seq", it), mk("elem", it, bv)
            if f == "builtins.enumerate" and a:
                start = a[1] if len(a) > 1 else dict(it.a[2]).get("start", const(0))
                d, e = self.iter_parts(a[0], bv)
                idx = bv if start is const(0) else self.binop("+", bv, start)
                return d, mk("tuple", idx, e)
            if f == "builtins.zip" and a:
                parts = [self.iter_parts(x, bv) for x in a]
                doms = []
                for d, _ in parts:
                    if d not in doms:
                        doms.append(d)
                d = doms[0] if len(doms) == 1 else mk("dom", "zip", *sorted(doms, key=lambda z: repr(z)))
                return d, mk("tuple", *[e for _, e in parts])
            if f == "builtins.map" and len(a) == 2:
                d, e = self.iter_parts(a[1], bv)
                return d, self.apply_value(a[0], [e], {}, None)
        if it.op == "mcall" and not it.a[2] and it.a[1] in ("items", "keys", "values"):
            d = it.a[0]
            key = mk("elem", d, bv)
            dom = mk("dom", "seq", d)
            if it.a[1] == "items":
                return dom, mk("tuple", key, self.getitem(d, key))
            return dom, (key if it.a[1] == "keys" else self.getitem(d, key))
        if it.op == "map" and len(it.a[1]) == 1 and it.a[1][0][0] == "e" and it.a[1][0][1] is TRUE \
                and it.a[0].op == "bind":
            bd, ys = it.a
            self.bvdom.setdefault(bv, bd.a[0])
            e = subst(ys[0][2], {bd.a[1]: bv}, self.rebuild)
            return bd.a[0], e
        return mk("dom", "seq", it), mk("elem", it, bv)

    def rebuild(self, t):
        if t.op == "item":
            return self.getitem(t.a[0], t.a[1])
        if t.op == "bin":
            return self.binop(*t.a)
        if t.op == "attr":
            return self.attr_term(t.a[0], t.a[1])
        return t

    def unrolled(self, st, elems):
        L = self.live
        all_brks = []
        self.outer.append(L)
        self.live = TRUE
        # returns inside an unrolled loop behave like plain returns
        for x in elems:
            if self.live is FALSE:
                break
            inner = UnrollCtx(len(self.outer), self.frame.loopstack[-1] if self.frame.loopstack else None)
            pre_live = self.live
            self.outer.append(pre_live)
            inner.base = len(self.outer)
            self.live = TRUE
            self.frame.loopstack.append(inner)
            self.assign(st.target, x, st)
            self.block(st.body)
            self.frame.loopstack.pop()
            self.join(inner.conts)
            self.outer.pop()
            for g, s in inner.brks:
                all_brks.append((and_(pre_live, g), s))
            self.live = and_(pre_live, self.live)
        if st.orelse and self.live is not FALSE:
            self.block(st.orelse)
        self.join(all_brks)
        self.outer.pop()
        self.live = and_(L, self.live)

    def join(self, snaps):
        """Merge saved (guard, snapshot) exits into the current state."""
        for g, s in snaps:
            if g is FALSE:
                continue
            if self.live is FALSE:
                self.restore(s)
                self.live = g
            else:
                here = self.snapshot()
                self.merge(g, s, here)
                self.live = or_(self.live, g)
        if snaps:
            self.dead_raise = False

    def changed(self, a, b):
        env = [k for k in b[0] if k in a[0] and a[0][k] is not b[0][k]]
        heap = []
        for k, v in b[1].items():
            old = a[1].get(k)
            if old is None:
                if k[0] == "cont" and (k[1] not in self.origin or is_phi(self.origin[k[1]])):
                    continue
                if k[0] != "cont" and k[1].op == "alloc" and ("cont", k[1]) not in a[1]:
                    continue
                old = self.place_default(k)
            if old is not v:
                heap.append(k)
        return env, heap

    def run_loop_body(self, st, elem, dom, bv, test):
        lc = UnrollCtx(0, None)
        lc.rets = []
        self.outer.append(self.live)
        lc.base = len(self.outer)
        L = self.live
        self.live, self.dead_raise = TRUE, False
        self.frame.loopstack.append(lc)
        saved_loops = self.loops
        if bv is not None:
            self.loops = self.loops + ((dom, bv),)
        if elem is not None:
            self.assign(st.target, elem, st)
        tc = TRUE
        if test is not None:
            tc = cond(self.val(test))
            self.outer.append(tc)
        self.block(st.body)
        if test is not None:
            self.outer.pop()
        self.frame.loopstack.pop()
        self.join(lc.conts)
        self.loops = saved_loops
        self.outer.pop()
        self.live, self.dead_raise = L, False
        return lc, tc

    def own_joined(self, st):
        """A name that holds one of several local objects, and is modified in the loop, becomes one object."""
        names = {n.value.id for b in st.body for n in ast.walk(b)
                 if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        for name in sorted(names):
            v = self.frame.env.get(name)
            if v is None or v.op != "ite" or not all(
                    x.op == "alloc" and x not in self.origin or x.op == "call" and x.a[0] in FRESH_CALLS
                    or x.op == "mcall" and x.a[1] == "copy" for x in ite_leaves(v)):
                continue
            leaves = {x for x in ite_leaves(v) if x.op == "alloc"}
            held = [x for k, x in self.frame.env.items() if k != name and isinstance(x, T)]
            held += [x for k, x in self.heap.items() if isinstance(x, T)]
            if not any(leaves & subterms(x) for x in held):
                self.frame.env[name] = self.new_alloc(self.deref(v))

    def sym_loop(self, st, dom, bv, elem, test):
        self.own_joined(st)
        before = self.snapshot()
        live0 = self.live
        rec, self.recording = self.recording, False
        occ = dict(self.occ)
        ch_env, ch_heap = set(), set()
        # discovery: which names/places does an arbitrary iteration modify
        for _ in range(2):
            self.restore(before)
            phis = {}
            for k in ch_env:
                p = fresh("phi")
                self.frame.env[k] = p
            for k in ch_heap:
                self.heap[k] = fresh("phi")
            start = self.snapshot()
            lc, _tc = self.run_loop_body(st, elem, dom, bv, test)
            ends = [self.snapshot()] + [s for _, s in lc.conts] + [s for _, s in lc.brks]
            n = (len(ch_env), len(ch_heap))
            for s in ends:
                e, h = self.changed(start, s)
                # names that are assigned but bound before the loop
                ch_env.update(k for k in e if k in before[0])
                ch_heap.update(k for k in h if not key_has(k, bv) and not (
                    k[0] == "cont" and k[1] in self.origin and bv is not None and contains(self.origin[k[1]], bv)))
            if (len(ch_env), len(ch_heap)) == n:
                break
        self.recording = rec
        self.occ = occ
        targets = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)} if elem is not None else set()
        ch_env -= targets
        self.restore(before)
        self.live = live0
        phi_env, phi_heap = {}, {}
        for k in ch_env:
            phi_env[k] = fresh("phi")
            ty = self.types.get(before[0][k])
            if ty:
                self.types[phi_env[k]] = ty
            self.frame.env[k] = phi_env[k]
        for k in ch_heap:
            phi_heap[k] = fresh("phi")
            self.heap[k] = phi_heap[k]
        lc, tc = self.run_loop_body(st, elem, dom, bv, test)
        end = self.snapshot()
        phis = set(phi_env.values()) | set(phi_heap.values())
        carried = []
        for k, p in phi_env.items():
            carried.append((("env", k), p, before[0][k], end[0].get(k, p)))
        for k, p in phi_heap.items():
            init = before[1].get(k)
            if init is None:
                init = self.place_default(k)
            carried.append((("heap", k), p, init, end[1].get(k, p)))

        self.heap = dict(end[1])
        carried = [(k, p, self._deref_in(i, before[1]), self._deref_in(b, end[1])) for k, p, i, b in carried]

        if test is not None:
            conv = self.while_to_for(carried, tc, lc)
            if conv is not None:
                dom, bv, mapping, carried, tc = conv
                rb = lambda t: subst(t, mapping, self.rebuild)
                lc.rets = [(rb(g), rb(v)) for g, v in lc.rets]
                lc.brks = [(rb(g), s) for g, s in lc.brks]
                if self.recording:
                    for e in self.effects:
                        if any(p in subterms(e.guard) | subterms(e.target) | subterms(e.value) for p in mapping):
                            e.guard, e.target, e.value = rb(e.guard), rb(e.target), rb(e.value)
                            e.loops = e.loops + ((dom, bv),)
                test = None

        if test is None and bv is not None:
            mapping = self.counters(carried, bv)
            if mapping:
                rb = lambda t: subst(t, mapping, self.rebuild)
                carried = [(k, p, i, b if p in mapping else rb(b)) for k, p, i, b in carried]
                lc.rets = [(rb(g), rb(v)) for g, v in lc.rets]
                lc.brks = [(rb(g), ({kk: rb(vv) for kk, vv in s[0].items()}, {kk: rb(vv) for kk, vv in s[1].items()})) for g, s in lc.brks]
                if self.recording:
                    for e in self.effects:
                        if any(p in subterms(e.guard) | subterms(e.target) | subterms(e.value) for p in mapping):
                            e.guard, e.target, e.value = rb(e.guard), rb(e.target), rb(e.value)
        results = {}
        brk = or_(*[g for g, _ in lc.brks]) if lc.brks else FALSE
        if test is None:
            carried2 = [(k, p, i, b, [(g, self._snap_val(k, s, p)) for g, s in lc.brks]) for k, p, i, b in carried]
            for k, p, i, b, bb in carried2:
                results[k] = self.summarise_carried(p, i, b, dom, bv, brk, bb, phis, carried)
        else:
            states = self.canon_states([(p, i, b) for _, p, i, b in carried], tc, brk)
            for k, p, i, b in carried:
                results[k] = mk("whileval", states, self.state_index(states, p, carried, tc, brk))
        if test is None and bv is not None:
            mp = {}
            for k, p, i, b in carried:
                r = results[k]
                if brk is FALSE and r is not p and r.op in ("dictmap", "setof", "map", "setunion", "concat", "upd") and not any(
                        q in subterms(r) for q in phis):
                    b2 = fresh_bv("j")
                    mp[p] = mk("sofar", subst(r, {bv: b2}), bv)
            if mp:
                alive = not_(or_(*[e.guard for e in self.effects if e.kind == "raise" and e.loops and e.loops[-1][1] is bv
                                   and not any(q in subterms(e.guard) for q in phis)])) if self.recording else TRUE
                rb = lambda t: self.earlier(subst(t, mp, self.rebuild), bv, alive) if any(p in subterms(t) for p in mp) else t
                lc.rets = [(rb(g), rb(v)) for g, v in lc.rets]
                if self.recording:
                    for e in self.effects:
                        if any(p in subterms(e.guard) | subterms(e.target) | subterms(e.value) for p in mp):
                            e.guard, e.target, e.value = rb(e.guard), rb(e.target), rb(e.value)
        # restore the environment after the loop
        self.restore((before[0], {kk: vv for kk, vv in end[1].items() if kk[0] == "cont" or not key_has(kk, bv)}))
        for k in list(self.frame.env):
            pass
        for n, v in end[0].items():
            if n not in self.frame.env:
                # only defined when the loop ran at least once: value of the last iteration
                self.frame.env[n] = mk("last", dom, TRUE, self._deref_in(v, end[1])) if test is None else mk("afterloop", v)
        for (kind, k), v in results.items():
            if kind == "env":
                self.frame.env[k] = self.maybe_alloc(v)
            else:
                self.heap[k] = v
        for k, v in list(self.heap.items()):
            pass
        # returns inside the loop
        if lc.rets:
            if test is None and not any(p in subterms(g) or p in subterms(v) for g, v in lc.rets for p in phis):
                g = or_(*[g for g, _ in lc.rets])
                v = self.deref(lc.rets[-1][1])
                for gg, vv in reversed(lc.rets[:-1]):
                    v = ite(gg, self.deref(vv), v)
                ex = exists(dom, g) if contains(g, bv) else g
                val = mk("first", dom, g, v) if contains(v, bv) else v
                if not contains(g, bv):
                    val = subst(v, {bv: const(0)}, self.rebuild)
            else:
                states = self.canon_states([(p, i, b) for _, p, i, b in carried],
                                           tc if test is not None else dom, brk,
                                           lc.rets)
                ex = mk("loopret", states)
                vals = {self.deref(v) for _, v in lc.rets}
                val = next(iter(vals)) if len(vals) == 1 and not any(
                    p in subterms(next(iter(vals))) for p in phis) else mk("loopretval", states)
            self.add_return(val, ex)
            self.live = and_(self.live, not_(ex))
        if st.orelse:
            nb = not_(exists(dom, brk)) if brk is not FALSE and test is None else (TRUE if brk is FALSE else mk("nobreak", brk))
            self.branch(nb, lambda: self.block(st.orelse), lambda: None)

    def _snap_val(self, k, s, p):
        kind, key = k
        m = s[0] if kind == "env" else s[1]
        return self._deref_in(m.get(key, p), s[1])

    def s_While(self, st):
        self.sym_loop(st, mk("bind", mk("dom", "while"), fresh_bv("w")), None, None, st.test)

    def earlier(self, t, bv, alive):
        """Membership in a collection built by the earlier iterations of the current loop."""
        found = {}
        for x in subterms(t):
            if x.op == "cmp" and x.a[0] == "in" and x.a[2].op == "sofar":
                e = self.among(x.a[1], x.a[2].a[0], bv, alive)
                if e is not None:
                    found[x] = e
            elif x.op == "item" and x.a[0].op == "sofar" and x.a[0].a[0].op == "dictmap" and len(x.a[0].a[0].a[1]) == 1:
                d, ((g, k, v),) = x.a[0].a[0].a
                found[x] = mk("last", mk("bind", mk("dom", "before", d.a[0], bv), d.a[1]),
                              and_(g, subst(alive, {bv: d.a[1]}, self.rebuild), cmp("==", k, x.a[1])), v)
        return subst(t, found, self.rebuild) if found else t

    def among(self, x, r, bv, alive):
        ok = lambda d: subst(alive, {bv: d.a[1]}, self.rebuild)  # earlier iterations did not raise
        before = lambda d: mk("bind", mk("dom", "before", d.a[0], bv), d.a[1])
        if r.op == "setof":
            return self.among(x, r.a[0], bv, alive)
        if r.op == "dictmap":
            return or_(*[exists(before(r.a[0]), and_(g, ok(r.a[0]), cmp("==", k, x))) for g, k, _ in r.a[1]])
        if r.op == "map" and all(y[0] == "e" for y in r.a[1]):
            return or_(*[exists(before(r.a[0]), and_(g, ok(r.a[0]), cmp("==", e, x))) for _, g, e in r.a[1]])
        if r.op in ("concat", "setunion"):
            parts = [self.among(x, y, bv, alive) if y.op in ("map", "setof") else cmp("in", x, y) for y in r.a]
            return None if any(y is None for y in parts) else or_(*parts)
        if r.op == "upd" and r.a[1].op == "dictmap":
            return or_(cmp("in", x, r.a[0]), self.among(x, r.a[1], bv, alive))
        return None

    def counters(self, carried, bv):
        """Names that advance by a constant in every iteration, as functions of the position."""
        out = {}
        for k, p, i, b in carried:
            if k[0] == "env" and i.op == "c" and i.a[0] == "int" and b.op == "bin" and b.a[0] == "+" and b.a[1] is p \
                    and b.a[2].op == "c" and b.a[2].a[0] == "int":
                step = bv if b.a[2] is const(1) else self.binop("*", bv, b.a[2])
                out[p] = step if i is const(0) else self.binop("+", i, step)
        return out

    def one_cell(self, p, init, b, dom, bv, phis, carried):
        """A loop that only updates one cell of a container: the cell is the loop variable."""
        ys = self.yields(b, p)
        if not ys or any(y[0] != "k" for y in ys):
            return None
        key = ys[0][2]
        if any(y[2] is not key for y in ys) or contains(key, bv) or any(q in subterms(key) for q in phis):
            return None
        q, cell = fresh("phi"), mk("item", p, key)
        new = q
        for _, g, _k, v in ys:
            new = ite(subst(g, {cell: q}), subst(v, {cell: q}), new)
        if p in subterms(new) or any(x in subterms(bb) for _, y, _, bb in carried if y is not p for x in (p,)):
            return None
        cur = self.getitem(init, key)
        rest = [(k, (q if x is p else x), (cur if x is p else i), (new if x is p else bb)) for k, x, i, bb in carried]
        val = self.summarise_carried(q, cur, new, dom, bv, FALSE, [], (phis - {p}) | {q}, rest)
        return self.setitem_term(init, key, val)

    def while_to_for(self, carried, tc, lc):
        """`while i < n: ...; i += 1` is a counted loop."""
        conj = tc.a if tc.op == "and" else (tc,)
        for k, p, i, b in carried:
            if not (b.op == "bin" and b.a[0] == "+" and b.a[1] is p and b.a[2] is const(1)):
                continue
            if not (i.op == "c" and i.a[0] == "int"):
                continue
            for c in conj:
                if c.op == "cmp" and c.a[0] == "<" and c.a[1] is p and p not in subterms(c.a[2]) and len(conj) == 1:
                    hi = c.a[2]
                    if any(q in subterms(hi) for _, q, _, _ in carried):
                        continue
                    rng = mk("call", "builtins.range", (hi,) if i is const(0) else (i, hi), ())
                    dom, bv, elem = self.iteration(rng)
                    mapping = {p: elem}
                    rest = [(kk, pp, ii, subst(bb, mapping, self.rebuild)) for kk, pp, ii, bb in carried if pp is not p]
                    rest.append((k, p, i, b))
                    # the counter itself ends at hi
                    out = [(kk, pp, ii, bb) for kk, pp, ii, bb in rest if pp is not p]
                    return dom, bv, mapping, out, TRUE
        return None

    def canon_states(self, trip, tc, brk, rets=()):
        """Canonical recursive-equation system of a loop (phi order made structural)."""
        phis = [p for p, _, _ in trip]
        relevant = set()

        def need(t):
            for x in subterms(t):
                if x in phis and x not in relevant:
                    relevant.add(x)
                    b = next(bb for p, _, bb in trip if p is x)
                    need(b)
        need(tc)
        need(brk)
        for g, v in rets:
            need(g)
            need(v)
        if not rets:
            relevant = set(phis)
        trip = [t for t in trip if t[0] in relevant]
        hole = {p: mk("sym", "phi") for p in phis}
        keyf = lambda t: repr(subst(t[1], hole)) + "|" + repr(subst(t[2], hole))
        trip.sort(key=keyf)
        ren = {p: mk("phiN", n) for n, (p, _, _) in enumerate(trip)}
        f = lambda t: subst(t, ren)
        return mk("system", f(tc), f(brk), tuple((f(i), f(b)) for _, i, b in trip),
                  tuple((f(g), f(self.deref(v))) for g, v in rets))

    def state_index(self, states, p, carried, tc, brk):
        hole = {q: mk("sym", "phi") for _, q, _, _ in carried}
        order = sorted([(q, i, b) for _, q, i, b in carried],
                       key=lambda t: repr(subst(t[1], hole)) + "|" + repr(subst(t[2], hole)))
        for n, (q, _, _) in enumerate(order):
            if q is p:
                return n
        return -1

    def limited(self, p, init, b, dom, bv, brkvals, phis, carried):
        """A list collected until it has n entries (n >= 1) is the first n entries of the whole."""
        if len(brkvals) != 1 or not (init.op == "list" and not init.a or init.op == "call" and init.a[0] in LIST_CTORS and not init.a[1]):
            return None
        whole = self.summarise_carried(p, init, b, dom, bv, FALSE, [], phis, carried)
        ys = self.yields(b, p)
        if whole.op != "map" or not ys or len(ys) != 1 or ys[0][0] != "e":
            return None
        g, v = brkvals[0]
        parts = list(g.a) if g.op == "and" else [g]
        deep = [c for c in parts if p in subterms(c)]
        rest = and_(*[c for c in parts if c not in deep])
        if len(deep) != 1 or rest not in (TRUE, ys[0][1]):
            return None
        c, neg = deep[0], False
        if c.op == "not":
            c, neg = c.a[0], True
        if c.op != "cmp":
            return None
        op, x, y = c.a
        if p in subterms(y):
            x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}.get(op) if neg else op
        if op not in (">=", "==", ">"):
            return None
        if x.op != "call" or x.a[0] != "builtins.len" or any(q in subterms(y) for q in phis) or contains(y, bv):
            return None
        now = x.a[1][0]
        grown = rest is not TRUE and and_(rest, TRUE) is ys[0][1] and (now is self.append_of(b, p) or now.op == "append" and now.a[0] is p and v is now) or now is b
        if not (grown and (v is now or v is b) or now is p and rest is TRUE and v is p):
            return None
        return mk("item", whole, mk("slice", NONE, y if op != ">" else mk("bin", "+", y, const(1)), NONE))

    @staticmethod
    def append_of(b, p):
        """The value after the append of a conditionally appended list."""
        return (b.a[1] if b.a[2] is p else b.a[2]) if b.op == "ite" else b

    def summarise_carried(self, p, init, b, dom, bv, brk, brkvals, phis, carried):
        if b is p and not any(v is not p for _, v in brkvals):
            return init
        others = phis - {p}
        has_brk = brk is not FALSE
        # ---- break pattern: assigned right before the break only
        if has_brk:
            bvs = [(g, v) for g, v in brkvals]
            if b is p and not any(q in subterms(g) or q in subterms(v) for g, v in bvs for q in phis):
                val = self.deref(bvs[-1][1])
                for g, v in reversed(bvs[:-1]):
                    val = ite(g, v, val)
                pick = mk("first", dom, brk, val) if contains(val, bv) else val
                return ite(exists(dom, brk), pick, init)
            lim = self.limited(p, init, b, dom, bv, brkvals, phis, carried)
            if lim is not None:
                return lim
            return mk("loopval", dom, brk, init, subst(b, {p: mk("sym", "acc")}),
                      tuple((g, subst(v, {p: mk("sym", "acc")})) for g, v in brkvals))
        cell = self.one_cell(p, init, b, dom, bv, phis, carried)
        if cell is not None:
            return cell
        # ---- yields
        ys = self.yields(b, p)
        if ys is not None and not any(q in subterms(x) for y in ys for x in y[1:] if isinstance(x, (T,)) for q in phis) \
                and not any(q in subterms(mk("tuple", *[z for z in y[2:] if isinstance(z, T)])) for y in ys for q in phis):
            kinds = {y[0] for y in ys}
            if kinds <= {"e", "s"}:
                m = self.mk_map(dom, bv, tuple(ys))
                if init.op == "list" and not init.a or (init.op == "call" and init.a[0] in LIST_CTORS and not init.a[1]):
                    return m
                if init.op == "list":
                    return mk("concat", init, m)
                return mk("concat", init, m)
            if kinds == {"a"}:
                m = self.mk_map(dom, bv, tuple(("e", g, e) for _, g, e in ys))
                if (init.op == "set" and not init.a) or (init.op == "call" and init.a[0] == "builtins.set" and not init.a[1]):
                    return mk("setof", m)
                return mk("setunion", init, mk("setof", m))
            if kinds == {"k"}:
                ent = tuple((g, k, v) for _, g, k, v in ys)
                if (init.op == "dict" and not init.a) or (init.op == "call" and init.a[0] == "builtins.dict" and not init.a[1]):
                    return mk("dictmap", dom, ent)
                # full overwrite of a fresh array/list of the same length
                if len(ent) == 1 and ent[0][0] is TRUE and ent[0][1] is bv and self.covers(init, dom):
                    return self.mk_map(dom, bv, (("e", TRUE, ent[0][2]),))
                return mk("upd", init, mk("dictmap", dom, ent))
        # ---- entries written by an inner loop
        g, u = (b.a[0], b.a[1]) if b.op == "ite" and b.a[2] is p else (TRUE, b)
        if u.op == "upd" and u.a[0] is p and u.a[1].op == "dictmap" and not any(q in subterms(x) for q in phis for x in (g, u.a[1])) \
                and (init.op == "dict" and not init.a or init.op == "call" and init.a[0] == "builtins.dict" and not init.a[1]):
            inner = mk("map", u.a[1].a[0], tuple(("e", g2, mk("tuple", k, v)) for g2, k, v in u.a[1].a[1]))
            return mk("call", "builtins.dict", (self.mk_map(dom, bv, (("s", g, inner),)),), ())
        adds = self.addends(b, p)
        if adds is not None and not any(q in subterms(g) or q in subterms(e) for g, e in adds for q in phis):
            s = mk("sum", self.mk_map(dom, bv, tuple(("e", g, e) for g, e in adds)))
            return s if init.op == "c" and init.a[0] in ("int", "float") and cval(init) == 0 else self.binop("+", init, s)
        # ---- conditional overwrite
        if b.op == "ite" and b.a[2] is p and not any(q in subterms(b.a[0]) or q in subterms(b.a[1]) for q in phis):
            c, e = b.a[0], b.a[1]
            ex = exists(dom, c) if contains(c, bv) else c
            return ite(ex, mk("last", dom, c, e) if contains(e, bv) else e, init)
        if b.op == "ite" and b.a[1] is p and not any(q in subterms(b.a[0]) or q in subterms(b.a[2]) for q in phis):
            c, e = not_(b.a[0]), b.a[2]
            ex = exists(dom, c) if contains(c, bv) else c
            return ite(ex, mk("last", dom, c, e) if contains(e, bv) else e, init)
        # ---- boolean accumulators
        tp = mk("truth", p)
        if b.op == "or" and (tp in b.a or p in b.a):
            rest = or_(*[x for x in b.a if x not in (tp, p)])
            if not any(q in subterms(rest) for q in phis):
                return or_(init, exists(dom, rest))
        if b.op == "and" and (tp in b.a or p in b.a):
            rest = and_(*[x for x in b.a if x not in (tp, p)])
            if not any(q in subterms(rest) for q in phis):
                return and_(init, not_(exists(dom, not_(rest))))
        if not any(q in subterms(b) for q in phis):
            return mk("ite", mk("nonempty", dom), mk("last", dom, TRUE, b), init)
        once = self.distinct(p, init, b, carried, phis)
        if once is not None:
            keys = self.mk_map(dom, bv, (("e", TRUE, once),))
            return mk("call", "builtins.list", (mk("call", "builtins.dict.fromkeys", (keys,), ()),), ())
        states = self.canon_states([(q, i, bb) for _, q, i, bb in carried], dom, FALSE)
        return mk("foldval", states, self.state_index(states, p, carried, TRUE, FALSE))

    def distinct(self, p, init, b, carried, phis):
        """The element of a loop that appends each new one: `if x not in seen: seen.add(x); out.append(x)`, else None."""
        def empty(t):
            return t.op in ("list", "set") and not t.a or t.op == "call" and t.a[0] in ("builtins.set", "builtins.list") and not t.a[1]

        def step(t, q, kinds):
            """(element, the collection it must not be in) of one conditional addition."""
            if t.op in kinds and t.a[0] is q:
                return t.a[1], None
            if t.op != "ite":
                return None
            c, x, y = t.a
            if c.op == "not":
                c, x, y = c.a[0], y, x
            if x is q and y.op in kinds and y.a[0] is q and c.op == "cmp" and c.a[0] == "in" and c.a[1] is y.a[1] and c.a[2] in phis:
                return y.a[1], c.a[2]
            return None
        got = step(b, p, ("append",)) if empty(init) else None
        if got is None or got[1] is None or any(q in subterms(got[0]) for q in phis):
            return None
        e, seen = got
        if seen is p:
            return e
        for _, q, i, bb in carried:
            if q is seen:
                other = step(bb, q, ("append", "setadd")) if empty(i) else None
                return e if other is not None and other[0] is e and other[1] in (None, q) else None
        return None

    def covers(self, init, dom):
        dom = dom.a[0]
        if init.op == "call" and init.a[0] in ARRAY_CTORS and (init.a[1] or dict(init.a[2]).get("shape") is not None):
            shape = init.a[1][0] if init.a[1] else dict(init.a[2])["shape"]
            if shape.op == "tuple" and len(shape.a) == 1:
                shape = shape.a[0]
            if init.a[0].endswith("_like"):
                return dom is mk("dom", "seq", shape)
            if dom.a[0] == "range":
                return dom.a[1] is shape
            if shape.op == "call" and shape.a[0] == "builtins.len":
                d, _ = self.iter_parts(shape.a[1][0], fresh_bv())
                return d is dom
        if init.op == "bin" and init.a[0] == "*" and init.a[1].op == "list" and len(init.a[1].a) == 1:
            n = init.a[2]
            if dom.a[0] == "range":
                return dom.a[1] is n
            if n.op == "call" and n.a[0] == "builtins.len":
                d, _ = self.iter_parts(n.a[1][0], fresh_bv())
                return d is dom
        return False

    def mk_map(self, dom, bv, ys):
        out = []
        for y in ys:
            if y[1] is FALSE:
                continue
            if y[0] == "s" and y[2].op in ("list", "tuple"):
                out.extend(("e", y[1], x) for x in y[2].a)
            else:
                out.append(y)
        ys = tuple(out)
        if not ys:
            return mk("list")
        if len(ys) == 1 and ys[0][0] == "e" and ys[0][1] is TRUE:
            e = ys[0][2]
            rd = dom.a[0]
            if rd.a[0] == "seq" and e.op == "elem" and e.a[1] is bv and e.a[0] is rd.a[1]:
                return mk("call", "builtins.list", (e.a[0],), ())
        return mk("map", dom, ys)

    def yields(self, b, p):
        if b is p:
            return []
        if b.op == "append":
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("e", TRUE, b.a[1])]
        if b.op == "extend":
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("s", TRUE, b.a[1])]
        if b.op == "concat" :
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("s", TRUE, b.a[1])]
        if b.op == "setadd":
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("a", TRUE, b.a[1])]
        if b.op == "setitem":
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("k", TRUE, b.a[1], b.a[2])]
        if b.op == "setunion" and b.a[1].op == "setof" and b.a[1].a[0].op == "map":
            r = self.yields(b.a[0], p)
            return None if r is None else r + [("u", TRUE, b.a[1])]
        if b.op == "bin" and b.a[0] == "+" and b.a[1] is p and b.a[2].op == "list":
            return [("e", TRUE, x) for x in b.a[2].a]
        if b.op == "ite":
            x, y = self.yields(b.a[1], p), self.yields(b.a[2], p)
            if x is None or y is None:
                return None
            pre = []
            while x and y and x[0] == y[0]:
                pre.append(x.pop(0))
                y.pop(0)
            c = b.a[0]
            return pre + [(k[0], and_(c, k[1])) + tuple(k[2:]) for k in x] + \
                [(k[0], and_(not_(c), k[1])) + tuple(k[2:]) for k in y]
        return None

    def addends(self, b, p):
        if b is p:
            return []
        if b.op == "bin" and b.a[0] == "+":
            if contains(b.a[1], p) and not contains(b.a[2], p):
                r = self.addends(b.a[1], p)
                return None if r is None else r + [(TRUE, b.a[2])]
            if contains(b.a[2], p) and not contains(b.a[1], p):
                r = self.addends(b.a[2], p)
                return None if r is None else r + [(TRUE, b.a[1])]
            return None
        if b.op == "bin" and b.a[0] == "-" and contains(b.a[1], p) and not contains(b.a[2], p):
            r = self.addends(b.a[1], p)
            return None if r is None else r + [(TRUE, self.binop("*", const(-1), b.a[2]))]
        if b.op == "ite":
            x, y = self.addends(b.a[1], p), self.addends(b.a[2], p)
            if x is None or y is None:
                return None
            c = b.a[0]
            return [(and_(c, g), e) for g, e in x] + [(and_(not_(c), g), e) for g, e in y]
        return None

    # ================================================================ expressions
    def ev(self, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return mk("unk", type(node).__name__)
        return m(node)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        fr = self.frame
        while fr is not None:
            if n.id in fr.env:
                v = fr.env[n.id]
                return self.obj_of.get(v, v)
            fr = fr.closure
        return self.global_name(self.frame.module, n.id)

    def global_name(self, module, name):
        kind, obj = self.program.lookup(module, name)
        if kind == "ext":
            if name in module.imports:
                return mk("g", obj if isinstance(obj, str) else name)
            import builtins as _b
            if hasattr(_b, name):
                return mk("g", "builtins." + name)
            return mk("g", f"{module.name}.{name}")
        return self.ref_obj(kind, obj)

    def ref(self, dotted):
        kind, obj = self.program.resolve(dotted)
        return self.ref_obj(kind, obj)

    def ref_obj(self, kind, obj):
        if kind == "module":
            return mk("g", obj.name)
        if kind == "func":
            return mk("fnref", obj.qual)
        if kind == "class":
            return mk("classref", obj.qual)
        if kind == "const":
            return self.module_const(*obj)
        return mk("g", obj)

    def module_const(self, module, name):
        key = (module.name, name)
        if key in self.const_cache:
            return self.const_cache[key]
        if key in self.const_busy:
            return mk("g", f"{module.name}.{name}")
        if key in self.program.mutated_globals():
            self.const_cache[key] = mk("g", f"{module.name}.{name}")
            return self.const_cache[key]
        self.const_busy.add(key)
        saved = (self.frame, self.live, self.outer, self.loops, self.recording, self.heap)
        f = Func(module, _mod_fn(module), f"{module.name}.<module>")
        self.frame = Frame(f, module, {}, None, 0)
        self.live, self.outer, self.loops, self.recording = TRUE, [], (), False
        self.heap = {}
        try:
            t = self.deref(self.ev(module.consts[name]))
            # module-level mutation of the table after its definition
            if self.module_mutates(module, name):
                t = self.apply_module_mutations(module, name, t)
        finally:
            self.frame, self.live, self.outer, self.loops, self.recording, self.heap = saved
        self.const_busy.discard(key)
        if t.op in ("unk",) or any(x.op in ("unk", "alloc") for x in subterms(t)):
            t = mk("g", f"{module.name}.{name}")
        if t.op in ("call", "mcall", "new", "obj") and t.a[0] not in ("builtins.float",):
            t = mk("g", f"{module.name}.{name}")
        self.const_cache[key] = t
        return t

    def module_mutates(self, module, name):
        for st in module.tree.body:
            if isinstance(st, ast.Assign):
                for tg in st.targets:
                    if isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and tg.value.id == name:
                        return True
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name \
                    and st.value.func.attr in MUTATORS:
                return True
        return False

    def apply_module_mutations(self, module, name, t):
        a = self.new_alloc(t)
        self.frame.env[name] = a
        seen = False
        for st in module.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                tgs = st.targets if isinstance(st, ast.Assign) else [st.target]
                if any(isinstance(x, ast.Name) and x.id == name for x in tgs):
                    seen = True
                    continue
            if not seen:
                continue
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)
                                                  and x.value.id == name for x in st.targets):
                self.stmt(st)
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name:
                self.stmt(st)
        return self.deref(a)

    # -------- attributes / items
    def e_Attribute(self, n):
        base = self.ev(n.value)
        return self.getattr(base, n.attr, n)

    def getattr(self, base, name, node):
        if base.op == "g":
            dotted = base.a[0]
            if dotted in self.program.modules:
                return self.ref(f"{dotted}.{name}")
            return mk("g", f"{dotted}.{name}")
        if base.op == "alloc" and base not in self.alloc_cls:
            cont = self.deref(base)
            return self.attr_term(cont, name)
        b = base if base.op == "alloc" else self.deref(base)
        if ("attr", b, name) in self.heap:
            return self.heap[("attr", b, name)]
        if name == "__dict__" and b.op == "alloc":
            raise GaveUp("the attributes of an object as a table")
        if b.op == "classref":
            c = self.program.get_class(b.a[0], required=False)
            if c is not None:
                m = self.program.find_method(c, name)
                if m is not None:
                    return mk("clsmeth", b, m.qual)
                ca = self.program.find_class_attr(c, name)
                if ca is not None:
                    return self.class_const(ca[0], name, ca[1])
            return mk("attr", b, name)
        if b.op == "ite":
            return ite(b.a[0], self.getattr(b.a[1], name, node), self.getattr(b.a[2], name, node))
        if b.op in ("obj",):
            d = dict(b.a[1])
            if name in d:
                return d[name]
        if b.op == "new":
            d = dict(b.a[1])
            c0 = self.program.get_class(b.a[0], required=False)
            if name in d and c0 is not None and self.program.is_dataclass(c0):
                return d[name]
        c = self.cls_of(b)
        if b.op == "super":
            c = self.program.get_class(b.a[0])
            for k in self.program.mro(c)[1:]:
                if isinstance(k, Class) and name in k.methods:
                    return mk("bound", b.a[1], k.methods[name].qual)
            return mk("attr", b, name)
        if c is not None:
            m = self.program.find_method(c, name)
            if m is not None and self.is_virtual(b, c, name):
                root = m
                for k in self.program.mro(c):
                    if isinstance(k, Class) and name in k.methods:
                        root = k.methods[name]
                if m.is_property:
                    return mk("attr", b, name)
                return mk("vbound", b, root.qual)
            if m is not None:
                if m.is_property:
                    if self.can_inline(m):
                        return self.inline(m, [b], {}, node)
                    return mk("attr", b, name)
                return mk("bound", b, m.qual)
            ca = self.program.find_class_attr(c, name)
            if ca is not None and not self.instance_assigns(c, name) and name not in self.program.dataclass_fields(c):
                return self.class_const(ca[0], name, ca[1])
        r = self.attr_term(b, name)
        return self.obj_of.get(r, r)

    def is_virtual(self, b, c, name):
        """A method some subclass overrides, on a receiver of unknown exact class."""
        if b.op in ("new", "obj", "alloc", "classref") or b in self.exact:
            return False
        key = (c.qual, name)
        r = self.virt_cache.get(key)
        if r is None:
            r = any(name in k.methods for k in self.program.subclasses(c))
            self.virt_cache[key] = r
        return r

    def attr_term(self, b, name):
        if b.op == "obj":
            d = dict(b.a[1])
            if name in d:
                return d[name]
        if b.op == "ite":
            return ite(b.a[0], self.attr_term(b.a[1], name), self.attr_term(b.a[2], name))
        if b.op == "attr" and b.a[1] == "__class__" and False:
            return b
        return mk("attr", b, name)

    def class_const(self, cls, name, node):
        key = ("cls", cls.qual, name)
        if key in self.const_cache:
            return self.const_cache[key]
        self.const_cache[key] = mk("g", f"{cls.qual}.{name}")
        saved = (self.frame, self.live, self.outer, self.loops, self.recording, self.heap)
        f = Func(cls.module, _mod_fn(cls.module), f"{cls.module.name}.<module>")
        self.frame = Frame(f, cls.module, {}, None, 0)
        self.live, self.outer, self.loops, self.recording, self.heap = TRUE, [], (), False, {}
        try:
            t = self.deref(self.ev(node))
        finally:
            self.frame, self.live, self.outer, self.loops, self.recording, self.heap = saved
        if any(x.op in ("unk", "alloc") for x in subterms(t)):
            t = mk("g", f"{cls.qual}.{name}")
        self.const_cache[key] = t
        return t

    def instance_assigns(self, cls, name):
        for c in self.program.mro(cls):
            if not isinstance(c, Class):
                continue
            for m in c.methods.values():
                for st in ast.walk(m.node):
                    if isinstance(st, ast.Attribute) and st.attr == name and isinstance(st.ctx, ast.Store):
                        return True
        return False

    def e_Subscript(self, n):
        base = self.ev(n.value)
        idx = self.slice_or_val(n.slice)
        r = self.getitem(base, idx)
        return self.obj_of.get(r, r)

    def slice_or_val(self, s):
        if isinstance(s, ast.Slice):
            return self.slice_term(s)
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return mk("tuple", *[self.slice_or_val(e) for e in s.elts])
        return self.val(s)

    def slice_term(self, s):
        return mk("slice", self.val(s.lower) if s.lower else NONE, self.val(s.upper) if s.upper else NONE,
                  self.val(s.step) if s.step else NONE)

    def getitem(self, base, idx, look=True):
        if base.op == "alloc":
            base = self.shallow(base)
        if look and ("item", base, idx) in self.heap:
            return self.heap[("item", base, idx)]
        # a cast to int of an index is the index
        if idx.op == "call" and idx.a[0] in ("builtins.int",) and len(idx.a[1]) == 1:
            idx = idx.a[1][0]
        if idx.op == "ite":
            return ite(idx.a[0], self.getitem(base, idx.a[1], look), self.getitem(base, idx.a[2], look))
        if base.op == "ite":
            return ite(base.a[0], self.getitem(base.a[1], idx, look), self.getitem(base.a[2], idx, look))
        if base.op in ("tuple", "list") and idx.op == "c" and idx.a[0] == "int":
            i = cval(idx)
            if -len(base.a) <= i < len(base.a) and not any(x.op == "star" for x in base.a):
                return base.a[i]
        if base.op in ("tuple", "list") and idx.op == "slice" and all(
                x is NONE or (x.op == "c" and x.a[0] == "int") for x in idx.a):
            return mk(base.op, *base.a[slice(*[None if x is NONE else cval(x) for x in idx.a])])
        if base.op == "c" and base.a[0] == "str":
            text = cval(base)
            if idx.op == "slice" and all(x is NONE or (x.op == "c" and x.a[0] == "int") for x in idx.a):
                return const(text[slice(*[None if x is NONE else cval(x) for x in idx.a])])
            if idx.op == "c" and idx.a[0] == "int" and -len(text) <= cval(idx) < len(text):
                return const(text[cval(idx)])
        if base.op == "dict":
            for k, v in base.a:
                if k is idx:
                    return v
        if base.op == "c" and base.a[0] == "str" and idx.op == "c" and idx.a[0] == "int":
            try:
                return const(cval(base)[cval(idx)])
            except IndexError:
                pass
        if base.op == "dictmap" and idx.op == "c":
            sel = selected(base)
            if sel is not None and cmp("in", idx, base) is not FALSE:
                return self.getitem(sel[0], idx, look)
        if base.op == "setitem":
            if base.a[1] is idx:
                return base.a[2]
            if is_const(base.a[1]) and is_const(idx):
                return self.getitem(base.a[0], idx, look)
        if base.op == "call" and base.a[0] in ("builtins.list", "builtins.tuple", "numba.typed.List") and len(base.a[1]) == 1:
            return self.getitem(base.a[1][0], idx, look)
        if base.op == "map" and len(base.a[1]) == 1 and base.a[1][0][0] == "e" and base.a[1][0][1] is TRUE \
                and idx.op not in ("slice", "tuple"):
            obv = base.a[0].a[1]
            if base.a[0].op == "bind" and not (is_const(idx) and isinstance(cval(idx), int) and cval(idx) < 0):
                return subst(base.a[1][0][2], {obv: idx}, self.rebuild)
        if idx.op == "bv":
            d = self.bvdom.get(idx)
            if d is not None and d.a[0] == "seq" and d.a[1] is base:
                return mk("elem", base, idx)
            if d is not None and d.a[0] == "zip" and any(x.a[1] is base for x in d.a[1:] if x.a[0] == "seq"):
                return mk("elem", base, idx)
        return mk("item", base, idx)

    # -------- displays
    def e_Tuple(self, n):
        return self.display("tuple", n)

    def e_List(self, n):
        return self.display("list", n)

    def e_Set(self, n):
        return self.display("set", n)

    def display(self, op, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.val(e.value)
                lit = self.literal_elems(v)
                if lit is not None:
                    out.extend(lit)
                else:
                    out.append(mk("star", v))
            else:
                v = self.ev(e)
                out.append(v if v.op == "alloc" and v in self.alloc_cls else self.deref(v))
        return mk(op, *out)

    def e_Dict(self, n):
        t = mk("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.val(v)
                if x.op == "dict":
                    for kk, vv in x.a:
                        t = self.setitem_term(t, kk, vv)
                else:
                    t = mk("dictmerge", t, x) if t.a or t.op != "dict" else x
            else:
                kv, vv = self.val(k), self.val(v)
                if t.op == "dict":
                    if is_const(kv) and all(is_const(kk) for kk, _ in t.a):
                        t = self.setitem_term(t, kv, vv)
                    else:
                        t = mk("dict", *t.a, (kv, vv))
                else:
                    t = mk("setitem", t, kv, vv)
        return t

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            elif isinstance(v, ast.FormattedValue):
                x = self.val(v.value)
                spec = self.val(v.format_spec) if v.format_spec is not None else const("")
                if v.conversion not in (-1, 115) or spec is not const(""):
                    parts.append(mk("fmt", x, v.conversion, spec))
                elif is_const(x) and isinstance(cval(x), (str, int)):
                    parts.append(const(str(cval(x))))
                else:
                    parts.append(x)
            else:
                parts.append(self.val(v))
        return fstr(parts)

    def e_FormattedValue(self, n):
        return self.val(n.value)

    def e_Lambda(self, n):
        f = Func(self.frame.module, n, f"{self.frame.func.qual}.<lambda>")
        t = mk("fn", f.qual, next(self.alloc_n))
        self.closures[t] = (f, self.frame)
        return t

    def e_IfExp(self, n):
        c = cond(self.val(n.test))
        if c is TRUE:
            return self.ev(n.body)
        if c is FALSE:
            return self.ev(n.orelse)
        self.outer.append(c)
        a = self.ev(n.body)
        self.outer[-1] = not_(c)
        b = self.ev(n.orelse)
        self.outer.pop()
        return ite(c, self.deref(a), self.deref(b))

    def e_BoolOp(self, n):
        """`a or b` as a value: ite(truth(a), a, b)."""
        vals = []
        pushed = 0
        for v in n.values:
            t = self.val(v)
            vals.append(t)
            c = cond(t)
            self.outer.append(c if isinstance(n.op, ast.And) else not_(c))
            pushed += 1
        for _ in range(pushed):
            self.outer.pop()
        if all(v.op in BOOL_OPS or v in (TRUE, FALSE) or (v.op == "ite" and cond(v).op != "truth" and _boolish(v)) for v in vals):
            return (and_ if isinstance(n.op, ast.And) else or_)(*vals)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            c = cond(v)
            acc = ite(c, acc, v) if isinstance(n.op, ast.And) else ite(c, v, acc)
        return acc

    def e_UnaryOp(self, n):
        v = self.val(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(v)
        if isinstance(n.op, ast.USub):
            if v.op == "c" and v.a[0] in ("int", "float"):
                return const(-cval(v))
            return self.binop("*", const(-1), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return mk("inv", v)

    def e_BinOp(self, n):
        return self.binop(OPS.get(type(n.op), "?"), self.val(n.left), self.val(n.right))

    def binop(self, op, a, b):
        if a.op == "c" and b.op == "c":
            va, vb = cval(a), cval(b)
            try:
                if op == "+":
                    return const(va + vb)
                if op == "-":
                    return const(va - vb)
                if op == "*":
                    if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
                        return const(va * vb)
                if op == "/":
                    return const(va / vb)
                if op == "**" and abs(vb) < 64:
                    return const(va ** vb)
                if op == "//":
                    return const(va // vb)
                if op == "%" and not isinstance(va, str):
                    return const(va % vb)
            except Exception:
                pass
        if op == "+" and a.op == b.op and a.op in ("list", "tuple"):
            return mk(a.op, *a.a, *b.a)
        if op == "+" and (is_strish(a) or is_strish(b)):
            return fstr([a, b])
        if op == "+" and (is_seq(a) or is_seq(b)):
            return mk("concat", a, b)
        if op == "&" and (a.op in BOOL_OPS and b.op in BOOL_OPS) and False:
            return and_(a, b)
        return mk("bin", op, a, b)

    def e_Compare(self, n):
        left = self.val(n.left)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.val(c)
            out.append(self.compare(CMPS[type(op)], left, right))
            left = right
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b):
        # `x.size`, casts
        if op in ("in", "not in") and b.op == "mcall" and b.a[1] == "keys" and not b.a[2]:
            b = b.a[0]
        if op in ("<=", ">=", "<", ">") and (setlike(a) or setlike(b)):
            if op in (">=", ">"):
                a, b = b, a
            sub = not_(mk("truth", mk("bin", "-", as_set(a), as_set(b))))
            return sub if op in ("<=", ">=") else and_(sub, mk("truth", mk("bin", "-", as_set(b), as_set(a))))
        # an integer code compares the same with and without int(); a number and its own truncation do not
        whole = op in ("==", "!=") and strip_scalar_cast(a, True) is not strip_scalar_cast(b, True)
        return cmp(op, strip_scalar_cast(a, whole), strip_scalar_cast(b, whole))

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n)
        return self.e_Name(n.target)

    def e_Starred(self, n):
        return mk("star", self.val(n.value))

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.val(n.value) if n.value is not None else NONE
        if self.frame.yields is not None:
            self.mutate(self.frame.yields, "append", (v,), n)
        return NONE

    def e_YieldFrom(self, n):
        v = self.val(n.value)
        if self.frame.yields is not None:
            self.mutate(self.frame.yields, "extend", (v,), n)
        return NONE

    # -------- comprehensions
    def e_ListComp(self, n):
        return self.comp(n.generators, lambda: self.val(n.elt), "list")

    def e_GeneratorExp(self, n):
        return self.comp(n.generators, lambda: self.val(n.elt), "list")

    def e_SetComp(self, n):
        m = self.comp(n.generators, lambda: self.val(n.elt), "list")
        if m.op in ("list",):
            return mk("set", *dict.fromkeys(m.a))
        return mk("setof", m)

    def e_DictComp(self, n):
        saved = dict(self.frame.env)
        try:
            if len(n.generators) == 1:
                g = n.generators[0]
                it = self.val(g.iter)
                lit = self.literal_elems(it)
                if lit is not None:
                    t = mk("dict")
                    for x in lit:
                        self.assign(g.target, x, n)
                        gd = and_(*[cond(self.val(i)) for i in g.ifs]) if g.ifs else TRUE
                        if gd is FALSE:
                            continue
                        k, v = self.val(n.key), self.val(n.value)
                        if gd is TRUE:
                            t = self.setitem_term(t, k, v)
                        else:
                            t = ite(gd, self.setitem_term(t, k, v), t)
                    return t
            m = self.comp(n.generators, lambda: mk("tuple", self.val(n.key), self.val(n.value)), "list")
            if m.op == "map" and all(y[0] == "e" and y[2].op == "tuple" for y in m.a[1]):
                return mk("dictmap", m.a[0], tuple((y[1], y[2].a[0], y[2].a[1]) for y in m.a[1]))
            return mk("call", "builtins.dict", (m,), ())
        finally:
            self.frame.env.clear()
            self.frame.env.update(saved)

    def comp(self, gens, elt, kind):
        saved = dict(self.frame.env)
        try:
            return self._comp(gens, 0, elt)
        finally:
            self.frame.env.clear()
            self.frame.env.update(saved)

    def _comp(self, gens, i, elt):
        g = gens[i]
        it = self.val(g.iter)
        lit = self.literal_elems(it)
        if lit is not None:
            ys = []
            for x in lit:
                self.assign(g.target, x, g.target)
                n0 = len(self.outer)
                gd = TRUE
                for t in g.ifs:
                    c = cond(self.val(t))
                    gd = and_(gd, c)
                    self.outer.append(c)
                if gd is not FALSE:
                    if i + 1 < len(gens):
                        ys.append(("s", gd, self._comp(gens, i + 1, elt)))
                    else:
                        ys.append(("e", gd, elt()))
                del self.outer[n0:]
            if all(y[0] == "e" and y[1] is TRUE for y in ys):
                return mk("list", *[y[2] for y in ys])
            acc = mk("list")
            if all(y[1] is TRUE for y in ys):
                for k, _, v in ys:
                    if k == "e":
                        acc = self.mut_term(acc, "append", (v,), ())
                    else:
                        acc = self.mut_term(acc, "extend", (v,), ())
                return acc
            return mk("map", mk("bind", mk("dom", "unit"), fresh_bv("u")), tuple(ys))
        dom, bv, elem = self.iteration(it)
        sl = self.loops
        self.loops = self.loops + ((dom, bv),)
        n0 = len(self.outer)
        self.assign(g.target, elem, g.target)
        gd = TRUE
        for t in g.ifs:
            c = cond(self.val(t))
            gd = and_(gd, c)
            self.outer.append(c)
        if i + 1 < len(gens):
            y = ("s", gd, self._comp(gens, i + 1, elt))
        else:
            y = ("e", gd, elt())
        del self.outer[n0:]
        self.loops = sl
        return self.mk_map(dom, bv, (y,))

    # -------- calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            slf = next(iter(self.frame.env.values())) if self.frame.env else mk("p", "self")
            fc = self.frame
            cls = fc.func.cls
            names = fc.func.params()[0]
            if cls is not None and names:
                return mk("super", cls.qual, fc.env[names[0]])
            return mk("unk", "super")
        # logging is not an observable effect of the analysed properties
        if isinstance(n.func, ast.Attribute) and n.func.attr in LOG_METHODS:
            d = _dotted(n.func.value)
            if d and d.split(".")[0] in ("logger", "logging", "log", "_logger", "LOGGER", "warnings"):
                return NONE
        if isinstance(n.func, ast.Name) and n.func.id == "print":
            return NONE
        if isinstance(n.func, ast.Attribute):
            return self.call_method(n)
        f = self.ev(n.func)
        args, kw = self.call_args(n)
        return self.apply_value(f, args, kw, n)

    def call_args(self, n):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.val(a.value)
                lit = self.literal_elems(v)
                if lit is not None:
                    args.extend(lit)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.val(k.value)
                if v.op == "dict" and all(is_const(x) for x, _ in v.a):
                    for x, y in v.a:
                        kw[cval(x)] = y
                elif v.op == "ite" and kwdict(v) is not None:
                    kw.update(kwdict(v))
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value)
        return args, kw

    def call_method(self, n):
        name = n.func.attr
        base = self.ev(n.func.value)
        b = self.deref(base) if base.op == "alloc" and base not in self.alloc_cls else base
        if name == "__new__" and b.op == "g" and b.a[0] == "builtins.object" and len(n.args) == 1:
            b = self.ev(n.args[0])
            b = b if b.op == "classref" else mk("g", "builtins.object")
        if name == "__new__" and b.op == "classref" and self.inline_classes is not None and b.a[0] in self.inline_classes:
            cls = self.program.get_class(b.a[0])
            if self.program.find_method(cls, "__new__") is None:
                return self.new_alloc(mk("obj", cls.qual, ()), cls)
        if b.op == "g" or b.op == "classref" or b.op == "super":
            f = self.getattr(b, name, n)
            args, kw = self.call_args(n)
            return self.apply_value(f, args, kw, n)
        cls = self.cls_of(b)
        if cls is None and b.op == "ite":
            # dispatch on both arms when they are typed
            c1 = self.cls_of(b.a[1])
            c2 = self.cls_of(b.a[2])
            if c1 is not None and c2 is not None and c1 is c2:
                cls = c1
        if cls is not None and self.program.find_method(cls, name):
            f = self.getattr(base, name, n)
            args, kw = self.call_args(n)
            return self.apply_value(f, args, kw, n)
        stored = self.heap.get(("attr", base, name))
        if stored is not None:
            args, kw = self.call_args(n)
            return self.apply_value(stored, args, kw, n)
        args, kw = self.call_args(n)
        fn = self.only_method(name) if cls is None else None
        if fn is not None:
            return self.opaque_call(fn, [base] + args, kw, n)
        # containers -------------------------------------------------
        if name in MUTATORS and not (cls is not None) and not (name in ("update", "pop") and False):
            if not self.is_foreign_update(b, name):
                return self.mutate(base, name, tuple(self.deref(a) for a in args), n,
                                   tuple((k, self.deref(v)) for k, v in sorted(kw.items())))
        return self.method_value(b, name, [self.deref(a) for a in args],
                                 {k: self.deref(v) for k, v in kw.items()}, n)

    def only_method(self, name):
        """A method that one class of the package defines under a name of its own, kept opaque: the receiver's type need not be known."""
        if name.count("_") < 2 or name.startswith("__"):
            return None
        fns = self.program.method_index().get(name, ())
        return fns[0] if len(fns) == 1 and fns[0].qual in self.opaque and fns[0].params()[0][:1] == ["self"] else None

    def is_foreign_update(self, b, name):
        """`x.update(...)`/`x.add(...)` on something that is a package object."""
        if name in ("update", "add", "remove", "clear", "pop", "insert", "extend", "append", "setdefault", "sort", "fill", "put"):
            ty = self.typeof(b)
            if ty and ty[0] == "cls":
                return True
            if name == "update" and b.op in ("p", "attr") and len(self.program.method_index().get("update", ())) and \
                    (ty is None) and any(w in repr(b) for w in ("tracker", "kmc")):
                return True
        return False

    def method_value(self, b, name, args, kw, n):
        if name == "get" and 1 <= len(args) <= 2 and not kw:
            d = args[1] if len(args) == 2 else NONE
            inn = cmp("in", args[0], b)
            return ite(inn, self.getitem(b, args[0]), d)
        if name == "copy" and not args and not kw:
            if b.op in ("dict", "list", "set"):
                return b
            return mk("mcall", b, "copy", (), ())
        if name in ("items", "keys", "values") and not args:
            return mk("mcall", b, name, (), ())
        if b.op == "c" and b.a[0] == "str" and not kw and all(is_const(a) for a in args) and name in (
                "lower", "upper", "strip", "startswith", "endswith", "split", "rsplit", "replace", "removeprefix", "removesuffix"):
            try:
                v = getattr(cval(b), name)(*[cval(a) for a in args])
                if isinstance(v, (str, bool)):
                    return const(v)
                if isinstance(v, list):
                    return mk("list", *[const(x) for x in v])
            except Exception:
                pass
        if name == "join" and b.op == "c" and len(args) == 1 and args[0].op in ("list", "tuple"):
            parts = []
            for i, x in enumerate(args[0].a):
                if i:
                    parts.append(b)
                parts.append(x)
            return fstr(parts)
        # numpy array methods -> functions
        if name in NP_METHODS and not self._pkg_method(b, name):
            return self.lib_call("numpy." + NP_METHODS[name], [b] + args, kw, n)
        if name == "tolist" and not args:
            return mk("call", "builtins.list", (b,), ())
        if name == "astype" and len(args) == 1:
            return self.cast_to(b, args[0])
        if name == "isdisjoint" and len(args) == 1:
            x = b.a[1][0] if b.op == "call" and b.a[0] in ("builtins.set", "builtins.frozenset") and b.a[1] else b
            y = args[0].a[1][0] if args[0].op == "call" and args[0].a[0] in ("builtins.set", "builtins.frozenset") and args[0].a[1] else args[0]
            return not_(mk("truth", mk("bin", "&", *sorted((mk("call", "builtins.set", (x,), ()), mk("call", "builtins.set", (y,), ())), key=repr))))
        # repository method with a unique implementation and an untyped receiver
        cands = [m for m in self.program.method_index().get(name, ()) if not m.is_property]
        if len(cands) == 1 and (name.startswith("_") and not name.startswith("__")) and self.can_inline(cands[0]):
            m = cands[0]
            self.types.setdefault(b, ("cls", m.cls))
            return self.call_func(m, [b] + args, kw, n)
        occ = ()
        if name in IMPURE_METHODS:
            key = (b, name, tuple(args))
            k = self.occ.get(key, 0)
            self.occ[key] = k + 1
            occ = (("#", const(k)),)
        t = mk("mcall", b, name, tuple(args), tuple(sorted(kw.items())) + occ)
        self.effect("call", t, NONE, n)
        return t

    def _pkg_method(self, b, name):
        ty = self.typeof(b)
        return bool(ty and ty[0] == "cls")

    def cast_to(self, b, ty):
        d = ty.a[0] if ty.op == "g" else (cval(ty) if is_const(ty) else None)
        if d in ("builtins.int", "numpy.int64", "numpy.int32", "numpy.int_", "int"):
            return mk("call", "builtins.int", (b,), ())
        if d in ("builtins.float", "numpy.float64", "float"):
            return mk("call", "builtins.float", (b,), ())
        return mk("mcall", b, "astype", (ty,), ())

    def apply_value(self, f, args, kw, n):
        f = f if f.op == "alloc" else self.deref(f)
        if f.op == "fnref":
            k, o = self.program.resolve(f.a[0])
            fn = o if k == "func" else self.program.get_func(f.a[0], required=False)
            return self.call_func(fn, args, kw, n)
        if f.op == "bound":
            fn = self.program.get_func(f.a[1])
            a = list(args) if fn.is_static else [f.a[0] if not fn.is_class else self.classref_of(f.a[0], fn)] + list(args)
            return self.call_func(fn, a, kw, n)
        if f.op == "vbound":
            fn = self.program.get_func(f.a[1])
            return self.opaque_call(fn, [f.a[0]] + list(args), kw, n)
        if f.op == "clsmeth":
            fn = self.program.get_func(f.a[1])
            a = list(args) if (fn.is_static or not fn.is_class) else [f.a[0]] + list(args)
            return self.call_func(fn, a, kw, n)
        if f.op == "classref":
            return self.construct(self.program.get_class(f.a[0]), args, kw, n)
        if f.op == "fn":
            fn, fr = self.closures[f]
            if fn.qual in self.stack or len(self.stack) > self.max_depth:
                held = [v for v in fr.env.values() if v.op == "alloc" and v not in self.alloc_cls]
                self.effect("recurse", mk("recurse", tuple(self.deref(a) for a in args)),
                            mk("tuple", *[mk("tuple", v, self.deref(v)) for v in held]), n)
                return mk("call", fn.qual, tuple(self.deref(a) for a in args), tuple(sorted(kw.items())))
            return self.inline(fn, args, kw, n, closure=fr)
        if f.op == "g":
            out = kw.get("out") if f.a[0].startswith("numpy.") else None
            dkw = {k: self.deref(v) for k, v in kw.items() if k != "out" or out is None}
            if f.a[0] == "builtins.vars" and args and args[0] in self.alloc_cls:
                raise GaveUp("the attributes of an object as a table")
            if f.a[0] in ("builtins.setattr", "builtins.hasattr", "builtins.getattr") and len(args) >= 2 and not kw \
                    and args[0] in self.alloc_cls and is_const(args[1]):
                return self.own_attr(f.a[0], args[0], cval(args[1]), args[2:], n)
            r = self.lib_call(f.a[0], [self.deref(a) for a in args], dkw, n)
            if out is not None:
                self.write_into(out, r, n)
            return r
        if f.op == "ite":
            return ite(f.a[0], self.apply_value(f.a[1], args, kw, n), self.apply_value(f.a[2], args, kw, n))
        if f.op == "attr":
            return self.method_value(f.a[0], f.a[1], [self.deref(a) for a in args],
                                     {k: self.deref(v) for k, v in kw.items()}, n)
        if f.op == "call" and f.a[0] == "builtins.getattr" and len(f.a[1]) == 3 and f.a[1][1].op == "c" and f.a[1][2] is NONE:
            return self.method_value(f.a[1][0], cval(f.a[1][1]), [self.deref(a) for a in args],
                                     {k: self.deref(v) for k, v in kw.items()}, n)
        t = mk("apply", f, tuple(self.deref(a) for a in args), tuple(sorted((k, self.deref(v)) for k, v in kw.items())))
        self.effect("call", t, NONE, n)
        return t

    def classref_of(self, obj, fn):
        c = self.cls_of(obj) or fn.cls
        return mk("classref", c.qual)

    def can_inline(self, fn):
        if fn is None or fn.qual in self.opaque or fn.qual in self.stack:
            return False
        if len(self.stack) > self.max_depth:
            return False
        if fn.is_abstract:
            return False
        for d in fn.decorators:
            if d and d.split(".")[-1] not in TRANSPARENT_DECORATORS:
                return False
        if self.inline_filter is not None and not self.inline_filter(fn):
            return False
        return True

    def bind(self, fn, args, kw):
        names, vararg, kwonly, kwarg = fn.params()
        env, extra_pos, extra_kw = {}, [], {}
        for i, a in enumerate(args):
            if a.op == "star":
                return None
            if i < len(names):
                env[names[i]] = a
            else:
                extra_pos.append(a)
        for k, v in kw.items():
            if k == "**":
                return None
            if k in names or k in kwonly:
                env[k] = v
            else:
                extra_kw[k] = v
        return env, extra_pos, extra_kw

    def defaults(self, fn):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def call_func(self, fn, args, kw, n):
        if self.can_inline(fn):
            return self.inline(fn, args, kw, n)
        return self.opaque_call(fn, args, kw, n)

    def eval_default(self, fn, node):
        saved = (self.frame,)
        self.frame = Frame(fn, fn.module, {}, None, 0)
        try:
            return self.deref(self.ev(node))
        finally:
            (self.frame,) = saved

    def opaque_call(self, fn, args, kw, n):
        b = self.bind(fn, [self.deref(a) for a in args], {k: self.deref(v) for k, v in kw.items()})
        if b is None:
            t = mk("call", fn.qual, tuple(self.deref(a) for a in args),
                   tuple(sorted((k, self.deref(v)) for k, v in kw.items())))
        else:
            env, ep, ek = b
            for k, d in self.defaults(fn).items():
                if k not in env:
                    env[k] = self.eval_default(fn, d)
            for k, v in list(env.items()):
                if v.op == "absent":
                    d = self.defaults(fn).get(k)
                    env[k] = self.eval_default(fn, d) if d is not None else v
            items = tuple(sorted({**env, **ek}.items()))
            t = mk("call", fn.qual, tuple(ep), items)
        r = self.program.ann_type(fn.module, fn.node.returns)
        if r is None and fn.node.returns is None and fn.cls is not None and fn.name.startswith("from_") and any(
                isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.node.decorator_list):
            r = ("cls", fn.cls)  # an alternative constructor
        if r is not None and t not in self.types:
            self.types[t] = r
        self.effect("call", t, NONE, n)
        return t

    def inline(self, fn, args, kw, n, closure=None):
        b = self.bind(fn, args, kw)
        if b is None:
            return self.opaque_call(fn, args, kw, n)
        env, ep, ek = b
        names, vararg, kwonly, kwarg = fn.params()
        for k, d in self.defaults(fn).items():
            if k not in env:
                env[k] = self.eval_default(fn, d) if closure is None else self.ev(d)
            elif env[k].op == "absent":
                env[k] = self.eval_default(fn, d)
            elif env[k].op == "ite" and mk("absent") in env[k].a:
                dv = self.eval_default(fn, d)
                env[k] = subst(env[k], {mk("absent"): dv})
        for k in list(names) + list(kwonly):
            if k not in env:
                env[k] = mk("unbound", k)
            if env[k].op != "alloc":
                env[k] = self.maybe_alloc(env[k])
            ty = self.program.ann_type(fn.module, fn.annotation(k))
            if ty is not None and self.typeof(env[k]) is None and env[k].op not in ("c", "alloc"):
                self.types[env[k]] = ty
        if names and fn.cls is not None and not fn.is_static and not fn.is_class and env[names[0]].op not in ("c",):
            if self.cls_of(env[names[0]]) is None:
                self.types[env[names[0]]] = ("cls", fn.cls)
        if vararg:
            env[vararg.arg] = mk("tuple", *[self.deref(x) for x in ep])
        if kwarg:
            env[kwarg.arg] = self.new_alloc(mk("dict", *[(const(k), self.deref(v)) for k, v in ek.items()]))
        ret, raised = self.run_body(fn, env, closure)
        if raised:
            pure = self.live is TRUE
            self.live, self.dead_raise = FALSE, pure
        return ret

    def construct(self, cls, args, kw, n):
        fields = self.program.dataclass_fields(cls) if self.program.is_dataclass(cls) else None
        init = self.program.find_method(cls, "__init__")
        if fields is not None and (init is None):
            names = list(fields)
            env = {}
            bad = False
            for i, a in enumerate(args):
                if a.op == "star" or i >= len(names):
                    bad = True
                    break
                env[names[i]] = self.deref(a)
            for k, v in kw.items():
                if k not in fields:
                    bad = True
                env[k] = self.deref(v)
            if not bad:
                for k, (ann, default, c) in fields.items():
                    if k not in env and default is not None:
                        env[k] = self.field_default(c, default)
                t = mk("new", cls.qual, tuple(sorted(env.items())))
                self.types[t] = ("cls", cls)
                self.effect("call", t, NONE, n)
                return t
        if init is not None and self.inline_classes is not None and cls.qual in self.inline_classes \
                and init.qual not in self.stack:
            a = self.new_alloc(mk("obj", cls.qual, ()), cls)
            self.inline(init, [a] + list(args), kw, n)
            return a
        if init is not None:
            b = self.bind(init, [mk("p", "<new>")] + [self.deref(a) for a in args],
                          {k: self.deref(v) for k, v in kw.items()})
            if b is not None:
                env, ep, ek = b
                env.pop(init.params()[0][0], None)
                for k, d in self.defaults(init).items():
                    if k not in env:
                        env[k] = self.eval_default(init, d)
                t = mk("new", cls.qual, tuple(sorted({**env, **ek}.items())))
                self.types[t] = ("cls", cls)
                self.effect("call", t, NONE, n)
                return t
        t = mk("new", cls.qual, tuple(sorted((k, self.deref(v)) for k, v in
                                             list(kw.items()) + [(f"{i:03d}", a) for i, a in enumerate(args)])))
        self.types[t] = ("cls", cls)
        self.effect("call", t, NONE, n)
        return t

    def field_default(self, cls, default):
        if isinstance(default, ast.Call):
            d = _dotted(default.func) or ""
            if d.split(".")[-1] == "field":
                for k in default.keywords:
                    if k.arg == "default":
                        return self.eval_default(Func(cls.module, _mod_fn(cls.module), cls.module.name), k.value)
                    if k.arg == "default_factory":
                        dd = _dotted(k.value)
                        if dd in ("list", "dict", "set"):
                            return mk(dd)
                        return mk("unk", "factory")
                return mk("unk", "field")
        return self.eval_default(Func(cls.module, _mod_fn(cls.module), cls.module.name), default)

    # -------- library
    def lib_call(self, q, args, kw, n):
        kind, obj = self.program.resolve(q)
        if kind == "func":
            return self.call_func(obj, args, kw, n)
        if kind == "class":
            return self.construct(obj, args, kw, n)
        q = LIB_ALIAS.get(q, q)
        if q.startswith("numba") and q.endswith(".List"):
            q = "builtins.list"
        h = getattr(self, "b_" + q.split(".")[-1], None) if q.startswith("builtins.") else None
        if h is not None:
            r = h(args, kw, n)
            if r is not None:
                return r
        r = self.lib_special(q, args, kw, n)
        if r is not None:
            return r
        args, kw = positional(q, args, kw)
        occ = ()
        if q.split(".")[-1] in IMPURE_METHODS and "random" in q:
            key = (q, tuple(args))
            k = self.occ.get(key, 0)
            self.occ[key] = k + 1
            occ = (("#", const(k)),)
        t = mk("call", q, tuple(args), tuple(sorted(kw.items())) + occ)
        self.effect("call", t, NONE, n)
        return t

    def lib_special(self, q, a, kw, n):
        if q == "numpy.count_nonzero" and len(a) == 1 and not kw and a[0].op in BOOL_OPS:
            return self.lib_call("numpy.sum", a, {}, n)
        if q in ("numpy.nonzero", "numpy.flatnonzero") and len(a) == 1 and not kw:
            w = self.lib_call("numpy.where", a, {}, n)
            return w if q == "numpy.nonzero" else self.getitem(w, const(0))
        if q == "numpy.square" and len(a) == 1:
            return self.binop("**", a[0], const(2))
        if q == "numpy.power" and len(a) == 2:
            return self.binop("**", a[0], a[1])
        if q in ("math.pow",) and len(a) == 2:
            return self.binop("**", a[0], a[1])
        if q in ("numpy.add", "operator.add") and len(a) == 2 and not kw:
            return self.binop("+", *a)
        if q in ("numpy.subtract", "operator.sub") and len(a) == 2 and not kw:
            return self.binop("-", *a)
        if q in ("numpy.multiply", "operator.mul") and len(a) == 2 and not kw:
            return self.binop("*", *a)
        if q in ("numpy.divide", "numpy.true_divide", "operator.truediv") and len(a) == 2 and not kw:
            return self.binop("/", *a)
        if q == "numpy.negative" and len(a) == 1:
            return self.binop("*", const(-1), a[0])
        if q in ("numpy.dot", "numpy.matmul", "numpy.inner") and len(a) == 2 and not kw:
            if q == "numpy.dot" or q == "numpy.matmul":
                return mk("bin", "@", a[0], a[1])
        if q == "numpy.logical_and" and len(a) == 2:
            return mk("bin", "&", *a)
        if q == "numpy.logical_or" and len(a) == 2:
            return mk("bin", "|", *a)
        if q == "numpy.logical_not" and len(a) == 1:
            return mk("inv", a[0])
        if q in ("numpy.equal",) and len(a) == 2:
            return cmp("==", *a)
        if q in ("numpy.not_equal",) and len(a) == 2:
            return cmp("!=", *a)
        if q in ("numpy.float64", "numpy.float32") and len(a) == 1:
            return mk("call", "builtins.float", (a[0],), ())
        if q in ("numpy.int64", "numpy.int32", "numpy.int_") and len(a) == 1:
            return mk("call", "builtins.int", (a[0],), ())
        if q in ("numpy.any", "numpy.all") and len(a) == 1 and not kw and a[0].op == "map":
            return (self.b_any if q.endswith("any") else self.b_all)(a, kw, n)
        if q == "dataclasses.replace" and a:
            t = mk("call", q, tuple(a), tuple(sorted(kw.items())))
            ty = self.typeof(a[0])
            if ty:
                self.types[t] = ty
            self.effect("call", t, NONE, n)
            return t
        if q == "dataclasses.asdict" and len(a) == 1 and not kw:
            ty = self.typeof(a[0])
            if ty and ty[0] == "cls" and ty[1].dataclass is not None and len(ty[1].fields) and \
                    len(self.program.mro(ty[1])) <= 2 and not any(isinstance(y, ast.Name) and y.id in {k.name for k in self.program.classes()}
                            for _, x, _ in ty[1].fields if x is not None for y in ast.walk(x)):
                return mk("dict", *[(const(f), self.getattr(a[0], f, n)) for f, _, _ in ty[1].fields])
        if q in ("copy.deepcopy", "copy.copy") and len(a) == 1 and is_const(a[0]):
            return a[0]
        if q == "operator.itemgetter" or q == "operator.attrgetter":
            return None
        if q == "functools.reduce":
            return None
        if q == "object.__setattr__" or q == "builtins.object.__setattr__":
            if len(a) == 3 and is_const(a[1]):
                self.setattr(a[0], cval(a[1]), a[2], n)
                return NONE
        return None

    def b_len(self, a, kw, n):
        if len(a) != 1:
            return None
        x = a[0]
        if x.op in ("list", "tuple", "set", "dict") and not any(isinstance(y, T) and y.op == "star" for y in x.a):
            return const(len(x.a))
        if x.op == "c" and x.a[0] == "str":
            return const(len(cval(x)))
        if x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray") and x.a[1]:
            return self.b_len([x.a[1][0]], {}, n)
        if x.op == "map":
            if len(x.a[1]) == 1 and x.a[1][0][0] == "e" and x.a[1][0][1] is TRUE:
                d = x.a[0].a[0]
                if d.a[0] == "seq":
                    return self.b_len([d.a[1]], {}, n)
                if d.a[0] == "range":
                    return d.a[1]
            elif all(y[0] == "e" for y in x.a[1]):
                bv = x.a[0].a[1]
                if bv is not None:
                    return mk("sum", self.mk_map(x.a[0], bv, tuple(("e", y[1], const(1)) for y in x.a[1])))
        c = self.cls_of(x)
        if c is not None:
            m = self.program.find_method(c, "__len__")
            if m is not None and self.can_inline(m):
                return self.inline(m, [x], {}, n)
        return mk("call", "builtins.len", (x,), ())

    def b_int(self, a, kw, n):
        if len(a) == 1:
            x = a[0]
            if x.op == "c" and x.a[0] in ("int", "bool"):
                return const(int(cval(x)))
            if x.op == "call" and x.a[0] in ("builtins.len", "builtins.int"):
                return x
            if x.op == "ite":
                return ite(x.a[0], self.b_int([x.a[1]], {}, n) or x.a[1], self.b_int([x.a[2]], {}, n) or x.a[2])
            if x.op == "bv":
                return x
            return mk("call", "builtins.int", (x,), ())
        return None

    def b_float(self, a, kw, n):
        if len(a) == 1:
            x = a[0]
            if x.op == "c":
                try:
                    return const(float(cval(x)))
                except (ValueError, TypeError):
                    pass
            if x.op == "ite":
                return ite(x.a[0], self.b_float([x.a[1]], {}, n), self.b_float([x.a[2]], {}, n))
            if x.op == "call" and x.a[0] == "builtins.float":
                return x
            return mk("call", "builtins.float", (x,), ())
        return None

    def b_bool(self, a, kw, n):
        return cond(a[0]) if len(a) == 1 else None

    def b_str(self, a, kw, n):
        if len(a) == 1:
            if is_const(a[0]) and isinstance(cval(a[0]), (str, int)):
                return const(str(cval(a[0])))
            if a[0].op == "fstr":
                return a[0]
            return mk("fstr", a[0])
        return None

    def b_list(self, a, kw, n):
        if not a:
            return mk("list")
        x = a[0]
        if x.op in ("list", "tuple"):
            return mk("list", *x.a)
        if x.op in ("map", "concat"):
            return x
        if x.op == "mcall" and x.a[0].op == "dict":
            lit = self.literal_elems(x)
            if lit is not None:
                return mk("list", *lit)
        if x.op == "mcall" and x.a[1] == "keys" and not x.a[2]:
            return mk("call", "builtins.list", (x.a[0],), ())
        if x.op == "ite":
            return ite(x.a[0], self.b_list([x.a[1]], {}, n), self.b_list([x.a[2]], {}, n))
        if x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple") and len(x.a[1]) == 1:
            return mk("call", "builtins.list", x.a[1], ())
        lit = self.literal_elems(x)
        if lit is not None:
            return mk("list", *lit)
        if x.op == "call" and x.a[0] in ("builtins.map", "builtins.filter", "builtins.enumerate", "builtins.zip", "builtins.range"):
            if x.a[0] == "builtins.range" and len(x.a[1]) != 1:
                pass
            elif x.a[0] != "builtins.filter":
                dom, bv, e = self.iteration(x)
                return self.mk_map(dom, bv, (("e", TRUE, e),))
        return mk("call", "builtins.list", (x,), ())

    def b_tuple(self, a, kw, n):
        if not a:
            return mk("tuple")
        x = a[0]
        if x.op in ("list", "tuple"):
            return mk("tuple", *x.a)
        if x.op == "map":
            return mk("call", "builtins.tuple", (x,), ())
        lit = self.literal_elems(x)
        if lit is not None:
            return mk("tuple", *lit)
        if x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple") and len(x.a[1]) == 1:
            x = x.a[1][0]
        return mk("call", "builtins.tuple", (x,), ())

    def b_set(self, a, kw, n):
        if not a:
            return mk("set")
        x = a[0]
        if x.op in ("list", "tuple", "set") and not any(y.op == "star" for y in x.a):
            return mk("set", *dict.fromkeys(x.a))
        if x.op == "map":
            return mk("setof", x)
        if x.op == "mcall" and x.a[1] == "keys":
            x = x.a[0]
        if x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.dict.fromkeys") \
                and len(x.a[1]) == 1:
            x = x.a[1][0]
        return mk("call", "builtins.set", (x,), ())

    b_frozenset = b_set

    def b_dict(self, a, kw, n):
        if not a:
            return mk("dict", *[(const(k), v) for k, v in kw.items()])
        x = a[0]
        if x.op == "dict":
            t = x
            for k, v in kw.items():
                t = self.setitem_term(t, const(k), v)
            return t
        if x.op == "dictmap" and not kw:
            return x
        if x.op == "map" and not kw and all(y[0] == "e" and y[2].op == "tuple" and len(y[2].a) == 2 for y in x.a[1]):
            return mk("dictmap", x.a[0], tuple((y[1], y[2].a[0], y[2].a[1]) for y in x.a[1]))
        return mk("call", "builtins.dict", (x,), tuple(sorted(kw.items())))

    def b_sum(self, a, kw, n):
        if len(a) == 1 and a[0].op in ("list", "tuple") and not kw:
            acc = const(0)
            for x in a[0].a:
                acc = x if acc is const(0) else self.binop("+", acc, x)
            return acc
        if len(a) == 1 and not kw:
            return mk("sum", a[0])
        return None

    def b_any(self, a, kw, n):
        x = a[0]
        if x.op in ("list", "tuple", "set"):
            return or_(*x.a) if x.a else FALSE
        if x.op == "map":
            return self.exists_map(x, False)
        return None

    def b_all(self, a, kw, n):
        x = a[0]
        if x.op in ("list", "tuple", "set"):
            return and_(*x.a) if x.a else TRUE
        if x.op == "map":
            return not_(self.exists_map(x, True))
        return None

    def exists_map(self, m, neg):
        dom, ys = m.a
        out = []
        for k, g, e in ys:
            if k == "e":
                out.append(exists(dom, and_(g, not_(e) if neg else e)))
            else:
                out.append(exists(dom, and_(g, self.exists_map(e, neg) if e.op == "map" else
                                            (mk("truth", mk("call", "builtins.any", (e,), ()))))))
        return or_(*out)

    def b_isinstance(self, a, kw, n):
        if len(a) != 2:
            return None
        x, c = a
        if c.op == "tuple":
            return or_(*[self.b_isinstance([x, k], {}, n) for k in c.a])
        name = c.a[0].split(".")[-1] if c.op in ("g", "classref") else repr(c)
        if x.op == "c":
            ty = x.a[0]
            if name in ("int", "float", "str", "bool", "dict", "list", "tuple"):
                return const(ty == name or (ty == "bool" and name == "int"))
        if x.op in ("list", "tuple", "dict", "set") and name in ("list", "tuple", "dict", "set", "str", "int", "float"):
            return const(x.op == name)
        if x.op == "ite":
            return ite_bool(x.a[0], self.b_isinstance([x.a[1], c], {}, n), self.b_isinstance([x.a[2], c], {}, n))
        if x.op in ("new", "obj") and c.op == "classref":
            kc = self.program.get_class(x.a[0], required=False)
            tc = self.program.get_class(c.a[0], required=False)
            if kc and tc:
                return const(tc in self.program.mro(kc))
        return mk("isinstance", x, name)

    def b_getattr(self, a, kw, n):
        if len(a) >= 2 and is_const(a[1]) and isinstance(cval(a[1]), str):
            name = cval(a[1])
            if len(a) == 2:
                return self.getattr(a[0], name, n)
            c = self.cls_of(a[0])
            if c is not None and (self.program.find_method(c, name) or name in self.program.dataclass_fields(c)
                                  or self.instance_assigns(c, name)):
                return self.getattr(a[0], name, n)
            if ("attr", a[0], name) in self.heap:
                return self.heap[("attr", a[0], name)]
            return mk("call", "builtins.getattr", tuple(a), ())
        return None

    def own_attr(self, q, obj, name, rest, n):
        """setattr, hasattr and getattr of an object this code has made."""
        if q == "builtins.setattr":
            self.setattr(obj, name, rest[0], n)
            return NONE
        cls = self.alloc_cls[obj]
        unset = mk("attr", obj, name)
        v = self.heap.get(("attr", obj, name))
        if self.program.find_method(cls, name) or name in self.program.dataclass_fields(cls) or self.class_level(cls, name):
            has = TRUE
        elif v is None:
            has = FALSE
        else:
            has = self.set_where(v, unset)
        if q == "builtins.hasattr":
            return has
        if has is FALSE:
            return rest[0] if rest else mk("unk", "missing attribute")
        got = self.getattr(obj, name, n)
        return ite(has, got, rest[0]) if rest else got

    def set_where(self, v, unset):
        """The condition under which a value is not the marker of an attribute that was never set."""
        if v is unset:
            return FALSE
        if v.op == "ite":
            return or_(and_(v.a[0], self.set_where(v.a[1], unset)), and_(not_(v.a[0]), self.set_where(v.a[2], unset)))
        return TRUE

    def class_level(self, cls, name):
        for c in self.program.mro(cls):
            for st in (c.node.body if not isinstance(c, str) else ()):
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets) \
                        or isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name) and st.target.id == name:
                    return True
        return False

    def b_setattr(self, a, kw, n):
        if len(a) == 3 and is_const(a[1]):
            self.setattr(a[0], cval(a[1]), a[2], n)
            return NONE
        return None

    def b_hasattr(self, a, kw, n):
        return mk("truth", mk("call", "builtins.hasattr", tuple(a), ()))

    def b_callable(self, a, kw, n):
        if a[0].op in ("fn", "fnref", "bound", "vbound", "clsmeth", "classref"):
            return TRUE
        if a[0] is NONE:
            return FALSE
        return mk("truth", mk("call", "builtins.callable", tuple(a), ()))

    def b_type(self, a, kw, n):
        if len(a) == 1:
            return mk("attr", a[0], "__class__")
        return None

    def b_abs(self, a, kw, n):
        return mk("call", "builtins.abs", tuple(a), ())

    def b_round(self, a, kw, n):
        if len(a) == 1:
            return mk("call", "numpy.round", (), (("a", a[0]),))
        return None

    def b_reversed(self, a, kw, n):
        return mk("call", "builtins.reversed", tuple(a), ())

    def b_max(self, a, kw, n):
        if len(a) >= 2 and not kw:
            if all(is_const(x) for x in a):
                try:
                    return const(max(cval(x) for x in a))
                except TypeError:
                    pass
            return mk("call", "builtins.max", tuple(sorted(a, key=repr)), ())
        if len(a) == 1 and "key" in kw:
            return mk("call", "builtins.max", (a[0],), tuple(sorted(self.sort_key(a[0], kw, n).items())))
        return None

    def b_min(self, a, kw, n):
        if len(a) >= 2 and not kw:
            if all(is_const(x) for x in a):
                try:
                    return const(min(cval(x) for x in a))
                except TypeError:
                    pass
            return mk("call", "builtins.min", tuple(sorted(a, key=repr)), ())
        if len(a) == 1 and "key" in kw:
            return mk("call", "builtins.min", (a[0],), tuple(sorted(self.sort_key(a[0], kw, n).items())))
        return None

    def b_filter(self, a, kw, n):
        if len(a) == 2 and a[0].op in ("fn", "fnref"):
            dom, bv, e = self.iteration(a[1])
            g = cond(self.apply_value(a[0], [e], {}, n))
            return self.mk_map(dom, bv, (("e", g, e),))
        return None

    def b_map(self, a, kw, n):
        if len(a) == 2:
            lit = self.literal_elems(a[1])
            if lit is not None:
                return mk("list", *[self.deref(self.apply_value(a[0], [x], {}, n)) for x in lit])
            dom, bv, e = self.iteration(a[1])
            return self.mk_map(dom, bv, (("e", TRUE, self.deref(self.apply_value(a[0], [e], {}, n))),))
        return None

    def sort_key(self, x, kw, n):
        if "key" in kw and kw["key"].op in ("fn", "fnref"):
            if x.op == "map" and len(x.a[1]) == 1 and x.a[1][0][0] == "e" and x.a[1][0][2].op in ("list", "tuple", "new", "call", "dict"):
                # keys of the elements themselves
                dom, ((_, g, e),) = x.a
                kv = self.deref(self.apply_value(kw["key"], [e], {}, n))
                kw = dict(kw)
                kw["key"] = mk("map", dom, (("e", g, kv),))
                return kw
            bv = mk("bv", 0, "key")  # one canonical name: sort keys do not nest
            body = self.deref(self.apply_value(kw["key"], [bv], {}, n))
            kw = dict(kw)
            kw["key"] = mk("lam", bv, body)
        return kw

    def b_sorted(self, a, kw, n):
        x = a[0]
        if x.op == "call" and x.a[0] in ("builtins.list", "builtins.tuple", "builtins.sorted") and len(x.a[1]) == 1 and not x.a[2]:
            x = x.a[1][0]
        if x.op == "mcall" and x.a[1] == "keys" and not x.a[2]:
            x = x.a[0]
        if x.op == "call" and x.a[0] == "builtins.dict.fromkeys" and len(x.a[1]) == 1 and not kw:
            x = self.b_set(list(x.a[1]), {}, n)
        kw = self.sort_key(x, kw, n)
        return mk("call", "builtins.sorted", (x,), tuple(sorted(kw.items())))

    def b_next(self, a, kw, n):
        x = a[0]
        if x.op == "map" and len(x.a[1]) == 1 and x.a[1][0][0] == "e":
            dom, ((_, g, e),) = x.a
            bv = dom.a[1]
            val = mk("first", dom, g, e) if bv is not None and contains(e, bv) else e
            if len(a) == 2:
                return ite(exists(dom, g), val, a[1])
            return val
        return None

    def b_print(self, a, kw, n):
        return NONE


class UnrollCtx(LoopCtx):
    def __init__(self, base, parent):
        super().__init__(base)
        self.parent = parent


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
       ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

NP_METHODS = {"sum": "sum", "mean": "mean", "round": "round", "max": "max", "min": "min", "dot": "dot",
              "any": "any", "all": "all", "argmin": "argmin", "argmax": "argmax", "cumsum": "cumsum",
              "searchsorted": "searchsorted", "reshape": "reshape", "flatten": "ravel", "ravel": "ravel",
              "transpose": "transpose", "prod": "prod", "nonzero": "nonzero", "std": "std"}
LIB_ALIAS = {"numpy.around": "numpy.round", "builtins.round": "numpy.round", "numpy.rint": "numpy.round", "numpy.round_": "numpy.round",
             "math.exp": "numpy.exp", "math.log": "numpy.log", "math.sqrt": "numpy.sqrt", "math.floor": "numpy.floor",
             "math.ceil": "numpy.ceil", "numpy.abs": "builtins.abs", "numpy.absolute": "builtins.abs", "numpy.fabs": "builtins.abs",
             "math.fabs": "builtins.abs", "math.isfinite": "numpy.isfinite", "math.isnan": "numpy.isnan",
             "numpy.concatenate": "numpy.concatenate", "numpy.average": "numpy.mean",
             "collections.OrderedDict": "builtins.dict", "math.prod": "numpy.prod", "numpy.product": "numpy.prod",
             "math.isclose": "math.isclose", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min"}
SIGS = {"numpy.searchsorted": ["a", "v", "side"], "numpy.sum": ["a", "axis"], "numpy.mean": ["a", "axis"],
        "numpy.linalg.norm": ["x", "ord", "axis"], "numpy.random.default_rng": ["seed"],
        "numpy.full": ["shape", "fill_value"], "numpy.where": ["c", "x", "y"], "numpy.cumsum": ["a", "axis"],
        "numpy.round": ["a", "decimals"], "numpy.ones": ["shape"], "numpy.zeros": ["shape"], "numpy.empty": ["shape"]}


def fresh_leaves(v):
    if v.op == "ite":
        return fresh_leaves(v.a[1]) and fresh_leaves(v.a[2])
    return v.op in ("list", "dict", "set", "map", "dictmap", "setof", "concat", "setitem", "append")


def setlike(t):
    return t.op in ("set", "setof") or t.op == "mcall" and t.a[1] == "keys" or t.op == "call" and t.a[0] in (
        "builtins.set", "builtins.frozenset") or t.op == "bin" and t.a[0] in ("|", "&", "-") and (setlike(t.a[1]) or setlike(t.a[2]))


def as_set(t):
    if t.op == "mcall" and t.a[1] == "keys":
        t = t.a[0]
    return t if t.op in ("set", "setof", "bin") else mk("call", "builtins.set", (t,), ())


def kwdict(v):
    """A keyword mapping with known keys, possibly chosen by conditions; None if the keys are not known."""
    if v.op == "dict" and all(is_const(x) for x, _ in v.a):
        return {cval(x): y for x, y in v.a}
    if v.op == "ite":
        da, db = kwdict(v.a[1]), kwdict(v.a[2])
        if da is None or db is None:
            return None
        return {x: ite(v.a[0], da.get(x, mk("absent")), db.get(x, mk("absent"))) for x in list(da) + [y for y in db if y not in da]}
    return None


def _callee(t):
    return t.a[0] if t.op in ("call", "new") else "." + t.a[1] if t.op == "mcall" else t.op


def is_phi(t):
    return t.op == "sym" and t.a[0].startswith("phi")


def key_has(k, bv):
    return bv is not None and any(isinstance(x, T) and contains(x, bv) for x in k[1:])


def positional(q, args, kw):
    """Canonical keyword form for library calls with a known signature."""
    sig = SIGS.get(q)
    if not sig:
        return list(args), dict(kw)
    kw = {k: v for k, v in kw.items() if k != "out" and (k != "dtype" or q == "numpy.full" and v.op in ("call", "ite", "attr"))}
    for i, a in enumerate(args):
        if i < len(sig):
            kw[sig[i]] = a
    if q == "numpy.random.default_rng":
        kw.setdefault("seed", const(None))
    return [], kw


def fstr(parts):
    out = []
    for p in parts:
        for x in (p.a if p.op == "fstr" else (p,)):
            if x.op == "c" and isinstance(cval(x), (str, int)) and not isinstance(cval(x), bool):
                s = str(cval(x))
                if out and out[-1].op == "c":
                    out[-1] = const(cval(out[-1]) + s)
                elif s:
                    out.append(const(s))
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "c":
        return out[0]
    return mk("fstr", *out)


def is_strish(t):
    return (t.op == "c" and t.a[0] == "str") or t.op == "fstr"


def is_seq(t):
    return t.op in ("list", "map", "concat", "append", "extend") or (
        t.op == "call" and t.a[0] in ("builtins.list", "builtins.sorted", "builtins.tuple")) or t.op == "tuple"


def strip_scalar_cast(t, whole=False):
    """float() does not change how a number compares (int() may: it truncates)."""
    while t.op == "call" and (t.a[0] == "builtins.float" or whole and t.a[0] == "builtins.int") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def _boolish(v):
    return v.op in BOOL_OPS or v in (TRUE, FALSE) or (v.op == "ite" and _boolish(v.a[1]) and _boolish(v.a[2]))


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _mod_fn(module):
    f = ast.FunctionDef(name="<module>", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                                                           kw_defaults=[], kwarg=None, defaults=[]),
                        body=[], decorator_list=[], returns=None, lineno=0)
    return f
