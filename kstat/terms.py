"""Hash-consed value terms used as the abstract domain of the dataflow analysis.

A term names *which value* an expression denotes (global value numbering); it
is built from the source only and never evaluated.
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "h")

    def __init__(self, op, a, h):
        self.op, self.a, self.h = op, a, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


_TAB: dict = {}


def mk(op, *a):
    key = (op,) + a
    t = _TAB.get(key)
    if t is None:
        t = T(op, a, hash(key))
        _TAB[key] = t
    return t


def const(v):
    if isinstance(v, float) and v != v:
        return mk("c", "float", "nan")
    if isinstance(v, float) and v in (math.inf, -math.inf):
        return mk("c", "float", "inf" if v > 0 else "-inf")
    if isinstance(v, (bool, int, float, str, bytes, type(None), complex)):
        return mk("c", type(v).__name__, v)
    if v is Ellipsis:
        return mk("c", "ellipsis", "...")
    return mk("unk", repr(v))


TRUE, FALSE, NONE = const(True), const(False), const(None)


def is_const(t):
    return t.op == "c"


def cval(t):
    if t.a[0] == "float" and isinstance(t.a[1], str):
        return float(t.a[1])
    return t.a[1]


def is_num(t):
    return t.op == "c" and t.a[0] in ("int", "float")


_bv_counter = itertools.count()


def fresh_bv(tag="i"):
    return mk("bv", next(_bv_counter), tag)


def fresh(tag):
    return mk("sym", f"{tag}#{next(_bv_counter)}")


# ---------------------------------------------------------------- smart constructors
def truthy_const(t):
    """Constant truth value of a term, or None."""
    if t.op == "c":
        return bool(cval(t))
    if t.op in ("list", "tuple", "set"):
        return bool(t.a)
    if t.op == "dict":
        return bool(t.a)
    if t.op in ("fn", "fnref", "classref", "lam"):
        return True
    return None


BOOL_OPS = {"not", "and", "or", "cmp", "exists", "isinstance", "truth", "pos", "eq0", "nonempty", "exc", "loopret", "nobreak"}


def cond(t):
    """Coerce a term to boolean context."""
    k = truthy_const(t)
    if k is not None:
        return const(k)
    if t.op in BOOL_OPS:
        return t
    if t.op == "ite":
        return ite_bool(t.a[0], cond(t.a[1]), cond(t.a[2]))
    if t.op == "call" and t.a[0] in ("builtins.bool", "numpy.bool_"):
        if len(t.a[1]) == 1:
            return cond(t.a[1][0])
    if t.op == "call" and t.a[0] == "builtins.len" and len(t.a[1]) == 1:
        return cond(t.a[1][0]) if truthy_const(t.a[1][0]) is not None else mk("truth", t.a[1][0])
    if t.op == "call" and t.a[0] in ("builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
        return cond(t.a[1][0])
    return mk("truth", t)


def ite_bool(c, a, b):
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def not_(t):
    t = cond(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return or_(*[not_(x) for x in t.a])
    if t.op == "or":
        return and_(*[not_(x) for x in t.a])
    return mk("not", t)


def and_(*ts):
    out = []
    for t in ts:
        t = cond(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in t.a if t.op == "and" else (t,):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    # absorption: x and (x or y) -> x ; x and (not x or y) -> x and y
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == "or":
                others = out[:i] + out[i + 1:]
                if any(y in others for y in x.a):
                    out = others
                    changed = True
                    break
                keep = [y for y in x.a if not_(y) not in others]
                if len(keep) != len(x.a):
                    return and_(*(others + [or_(*keep)]))
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*ts):
    out = []
    for t in ts:
        t = cond(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in t.a if t.op == "or" else (t,):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    # x or (not x and y) -> x or y
    for i, x in enumerate(out):
        if x.op == "and":
            others = out[:i] + out[i + 1:]
            keep = [y for y in x.a if not_(y) not in others]
            if len(keep) != len(x.a):
                return or_(*(others + [and_(*keep)]))
    # absorption / complement factoring: (A and c) or (A and not c) -> A
    n = len(out)
    for i in range(n):
        for j in range(i + 1, n):
            x, y = out[i], out[j]
            sx = set(x.a) if x.op == "and" else {x}
            sy = set(y.a) if y.op == "and" else {y}
            if sx <= sy:
                return or_(*(out[:j] + out[j + 1:]))
            if sy <= sx:
                return or_(*(out[:i] + out[i + 1:]))
            dx, dy = sx - sy, sy - sx
            if len(dx) == 1 and len(dy) == 1:
                (p,), (q,) = dx, dy
                if not_(p) is q:
                    rest = [z for z in (x.a if x.op == "and" else (x,)) if z not in dx]
                    return or_(*(out[:i] + out[i + 1:j] + out[j + 1:] + [and_(*rest)]))
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    c = cond(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a[0], b, a
    # collapse nested identical conditions
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return c if a is TRUE else not_(c)
    return mk("ite", c, a, b)


_CMP_NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">",
            "is": "is not", "is not": "is", "in": "not in", "not in": "in"}


def selected(dm):
    """(mapping, key term, guard) when a comprehension keeps entries of one mapping unchanged, else None."""
    if dm.op != "dictmap" or dm.a[0].op != "bind" or dm.a[0].a[0].a[0] != "seq" or len(dm.a[1]) != 1:
        return None
    S, bv = dm.a[0].a[0].a[1], dm.a[0].a[1]
    g, k, v = dm.a[1][0]
    if S.op == "mcall" and S.a[1] == "keys":
        S = S.a[0]
    if k.op not in ("elem", "item") or k.a[1] is not bv or v.op != "item" or v.a[0] is not S or v.a[1] is not k:
        return None
    rest = subst(g, {k: NONE})
    return None if bv in subterms(rest) else (S, k, g)


def _const_method(t):
    if t.op == "truth" and t.a[0].op == "mcall":
        b, name, args, kw = t.a[0].a
        if b.op == "c" and b.a[0] == "str" and name in ("startswith", "endswith") and not kw and all(
                x.op == "c" and x.a[0] == "str" for x in args):
            return const(getattr(cval(b), name)(*[cval(x) for x in args]))
    return t


def cmp(op, a, b):
    """Comparison, reduced to the atoms ==, <, is, in (negation via not_)."""
    if op == "!=":
        return not_(cmp("==", a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return not_(cmp("<", a, b))
    if op == "<=":
        return not_(cmp("<", b, a))
    if op == "is not":
        return not_(cmp("is", a, b))
    if op == "not in":
        return not_(cmp("in", a, b))
    # ite operands distribute so that guards stay atomic
    for (x, y, sw) in ((a, b, False), (b, a, True)):
        if x.op == "ite" and op != "in":
            p = cmp(op, x.a[1], y) if not sw else cmp(op, y, x.a[1])
            q = cmp(op, x.a[2], y) if not sw else cmp(op, y, x.a[2])
            return ite_bool(x.a[0], p, q)
    if a.op == "c" and b.op == "c":
        va, vb = cval(a), cval(b)
        try:
            if op == "==":
                return const(va == vb)
            if op == "<":
                return const(va < vb)
            if op == "is":
                if a is NONE or b is NONE:
                    return const(a is b)
                if a.a[0] == "bool" or b.a[0] == "bool":
                    return const(a is b)
            if op == "in" and isinstance(vb, str):
                return const(va in vb)
        except TypeError:
            pass
    if op in ("==", "is") and a is b and a.op != "call":
        return TRUE
    if op == "in" and b.op == "dictmap" and a.op == "c":
        sel = selected(b)
        if sel is not None:
            return and_(cmp("in", a, sel[0]), subst(sel[2], {sel[1]: a}, _const_method))
    if op == "is":
        if b is TRUE or b is FALSE:
            pass
        if (a is NONE) != (b is NONE):
            other = b if a is NONE else a
            if definitely_not_none(other):
                return FALSE
            return mk("cmp", "is", other, NONE)
    if op == "==":
        if (a is NONE) != (b is NONE):
            other = b if a is NONE else a
            if definitely_not_none(other):
                return FALSE
            return mk("cmp", "is", other, NONE)
        # booleans
        for x, y in ((a, b), (b, a)):
            if y is TRUE and x.op in BOOL_OPS:
                return x
            if y is FALSE and x.op in BOOL_OPS:
                return not_(x)
        # len(x) == 0
        for x, y in ((a, b), (b, a)):
            if is_num(y) and cval(y) == 0 and x.op == "call" and x.a[0] == "builtins.len":
                return not_(cond(x.a[1][0]))
        # keep constants on the right
        if a.op == "c" and b.op != "c":
            a, b = b, a
        elif (a.op != "c") == (b.op != "c") and show(a) > show(b):
            a, b = b, a
        return mk("cmp", "==", a, b)
    if op == "<":
        # 0 < len(x)  /  len(x) < 1
        if is_num(a) and cval(a) == 0 and b.op == "call" and b.a[0] == "builtins.len":
            return cond(b.a[1][0])
        if is_num(b) and cval(b) == 1 and a.op == "call" and a.a[0] == "builtins.len":
            return not_(cond(a.a[1][0]))
        if is_num(b) and cval(b) == 0 and a.op == "call" and a.a[0] == "builtins.len":
            return FALSE
    if op == "in":
        if b.op in ("tuple", "list", "set") and len(b.a) <= 64:
            return or_(*[cmp("==", a, x) for x in b.a])
        if b.op == "dict" and len(b.a) <= 64:
            return or_(*[cmp("==", a, k) for k, _ in b.a])
        if b.op == "ite":
            return ite_bool(b.a[0], cmp("in", a, b.a[1]), cmp("in", a, b.a[2]))
        if b.op == "call" and b.a[0] in ("builtins.set", "builtins.list", "builtins.tuple",
                                         "builtins.frozenset") and len(b.a[1]) == 1:
            return cmp("in", a, b.a[1][0])
        if b.op == "mcall" and b.a[1] == "keys":
            return cmp("in", a, b.a[0])
        if b.op == "map" and all(k == "e" for k, _, _ in b.a[1]):
            d, ys = b.a
            return mk("exists", d, or_(*[and_(g, cmp("==", e, a)) for _, g, e in ys]))
    return mk("cmp", op, a, b)


NOT_NONE_OPS = {"list", "tuple", "set", "dict", "map", "dictmap", "obj", "new", "fstr", "bin",
                "sum", "setitem", "append", "fnref", "classref", "lam", "and", "or", "not",
                "cmp", "exists", "truth", "alloc"}


def definitely_not_none(t):
    if t.op == "c":
        return t is not NONE
    if t.op in NOT_NONE_OPS:
        return True
    if t.op == "call" and isinstance(t.a[0], str) and (
            t.a[0].startswith("numpy.") or t.a[0] in (
                "builtins.list", "builtins.tuple", "builtins.dict", "builtins.set",
                "builtins.int", "builtins.float", "builtins.str", "builtins.len",
                "builtins.sorted", "builtins.bool")):
        return True
    return False


def exists(dom, p):
    p = cond(p)
    if p is FALSE:
        return FALSE
    if p.op == "or":
        return or_(*[exists(dom, x) for x in p.a])
    return mk("exists", dom, p)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """All distinct subterms (descending into nested tuples)."""
    hit = _SUBTERMS.get(t) if seen is None and isinstance(t, T) else None
    if hit is not None:
        return hit
    keep = seen is None and isinstance(t, T)
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    if keep:
        if len(_SUBTERMS) > 20000:
            _SUBTERMS.clear()
        seen = frozenset(seen)
        _SUBTERMS[t] = seen
    return seen


_SUBTERMS = {}


def contains(t, target):
    return target in subterms(t)


def subst(t, mapping, rebuild=None, memo=None):
    """Replace terms by terms, rebuilding with smart constructors."""
    if memo is None:
        memo = {}
        if isinstance(t, T) and len(mapping) <= 4:
            sub = subterms(t)
            if not any(k in sub for k in mapping):
                return t

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(y) for y in x.a)
        if na == x.a:
            r = x
        else:
            r = remake(x.op, na)
            if rebuild is not None:
                r = rebuild(r)
        memo[x] = r
        return r

    return go(t)


def remake(op, a):
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "ite":
        return ite(*a)
    if op == "cmp":
        return cmp(*a)
    if op == "truth":
        return cond(a[0])
    if op == "exists":
        return exists(*a)
    return mk(op, *a)


def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "c":
        return repr(a[1])
    if o == "bv" and a[1] == "b":
        return f"i{-a[0]}"
    if o in ("p", "sym"):
        return str(a[0])
    if o == "bv":
        return f"{a[1]}{a[0]}"
    if o == "g":
        return a[0]
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "elem":
        return f"{show(a[0], d)}⟨{show(a[1], d)}⟩"
    if o == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "cmp":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "not":
        return f"not {show(a[0], d)}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(show(x, d) for x in a) + ")"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "call":
        return f"{a[0]}({', '.join([show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]])})"
    if o == "mcall":
        return f"{show(a[0], d)}.{a[1]}({', '.join([show(x, d) for x in a[2]] + [f'{k}={show(v, d)}' for k, v in a[3]])})"
    if o in ("list", "tuple", "set"):
        return f"{o}({', '.join(show(x, d) for x in a)})"
    if o == "num":
        return str(float(a[0])) if a[0].denominator != 1 else str(a[0])
    if o == "poly":
        def mono(c, m):
            f = [f"{show(b, d)}" + ("" if e == 1 else f"^{e}") for b, e in m]
            if c != 1 or not f:
                f.insert(0, f"{float(c):g}")
            return "*".join(f)
        return "(" + " + ".join(mono(c, m) for c, m in a) + ")"
    if o == "pos":
        return f"{show(a[0], d)} > 0"
    if o == "eq0":
        return f"{show(a[0], d)} == 0"
    if o == "sk":
        return f"k{a[0]}"
    if o == "dict":
        return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in a) + "}"
    return f"{o}({', '.join(show(x, d) for x in a)})"
