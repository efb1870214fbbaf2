"""Normal forms of value terms (alpha-renaming, polynomials, guards, sequences)."""
from __future__ import annotations

import hashlib
from fractions import Fraction

from .terms import (BOOL_OPS, FALSE, NONE, T, TRUE, and_, cmp, cond, const, cval, exists, ite, mk, not_, or_,
                    remake, show, subst, subterms)

_DIG: dict = {}


def dig(t):
    """Stable structural digest (independent of hash seeds and allocation order)."""
    if isinstance(t, T):
        d = _DIG.get(t)
        if d is None:
            h = hashlib.md5(t.op.encode())
            for x in t.a:
                h.update(b"|")
                h.update(dig(x).encode())
            d = h.hexdigest()
            _DIG[t] = d
        return d
    if isinstance(t, tuple):
        return "(" + ",".join(dig(x) for x in t) + ")"
    return type(t).__name__ + ":" + str(t)


def rounded(v):
    """Floats agree up to rounding: 12 significant digits."""
    return Fraction(f"{v:.12g}")


def num(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return const(v)
        v = rounded(v)
    return mk("num", Fraction(v))


ZERO, ONE = num(0), num(1)
VALUE_CASTS = {"builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray",
               "copy.copy", "copy.deepcopy", "builtins.float", "builtins.iter", "numpy.copy", "numba.typed.List",
               "numpy.asanyarray"}
SETISH = {"setof", "set", "setunion"}
BINDERS = {"map", "dictmap", "exists", "first", "last", "loopval"}


def dnf(p, neg=False, cap=12):
    """Disjunctive form of a condition as lists of literals (one list with p itself when it would grow too large)."""
    def go(t, neg):
        if t.op == "not":
            return go(t.a[0], not neg)
        if t.op in ("and", "or"):
            parts = [go(x, neg) for x in t.a]
            if (t.op == "or") != neg:
                return [c for d in parts for c in d]
            out = [[]]
            for d in parts:
                out = [a + [x for x in b if x not in a] for a in out for b in d]
                if len(out) > cap:
                    raise OverflowError
            return out
        return [[not_(t) if neg else t]]
    try:
        out = go(p, neg)
    except OverflowError:
        return [[not_(p) if neg else p]]
    return out if len(out) <= cap else [[not_(p) if neg else p]]


class Norm:
    def __init__(self, interps=()):
        self.memo = {}
        self.interps = list(interps)
        self.inty_memo = {}

    # ------------------------------------------------------------ typing
    def typename(self, t):
        """'int' / 'float' / 'str' / 'list' / 'dict' / ('cls', C) when declared."""
        for it in self.interps:
            try:
                ty = it.typeof(t)
            except Exception:
                ty = None
            if ty:
                if ty[0] == "name":
                    return ty[1]
                if ty[0] in ("list", "dict"):
                    return ty[0]
                return ty
        return None

    def inty(self, t):
        r = self.inty_memo.get(t)
        if r is None:
            r = self._inty(t)
            self.inty_memo[t] = r
        return r

    def _inty(self, t):
        if t.op == "num":
            return t.a[0].denominator == 1
        if t.op == "bv" or t.op == "sk":
            return True
        if t.op == "call" and t.a[0] in ("builtins.len", "builtins.int", "numpy.searchsorted", "numpy.argmin"):
            return True
        if t.op == "poly":
            return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and self.inty(b) for b, e in m)
                       for c, m in t.a)
        if t.op == "bin" and t.a[0] in ("%", "//"):
            return self.inty(t.a[1]) and self.inty(t.a[2])
        if t.op == "sum":
            return False
        return self.typename(t) == "int"

    def numeric(self, t):
        return t.op in ("num", "poly") or self.typename(t) in ("int", "float") or (
            t.op == "call" and t.a[0] in ("builtins.len", "builtins.int", "builtins.abs", "numpy.exp", "numpy.round"))

    def listy(self, t):
        return t.op in ("list", "concat", "map") or self.typename(t) == "list"

    # ------------------------------------------------------------ driver
    def nf(self, t):
        if isinstance(t, tuple):
            return tuple(self.nf(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
            self.memo.setdefault(r, r)
        return r

    def _nf(self, t):
        op, a = t.op, t.a
        if op == "c":
            if a[0] in ("int", "float"):
                return num(cval(t))
            return t
        if op in ("p", "sym", "bv", "g", "num", "sk", "fnref", "classref", "unk", "absent", "phiN", "alloc", "fn"):
            return t
        if op == "elem":
            return self.nf(mk("item", *a))
        if a and isinstance(a[0], T) and a[0].op == "bind":
            return self.binder(t)
        if op == "exc":
            return mk("exc", a[0], a[1])
        na = tuple(self.nf(x) for x in a)
        f = getattr(self, "n_" + op, None)
        if f is not None:
            r = f(*na)
            if r is not None:
                return r
        r = remake(op, na)
        if r.op != op or r.a != na:
            return self.nf(r)
        return r

    # ------------------------------------------------------------ binders
    def binder(self, t):
        bind, rest = t.a[0], t.a[1:]
        dom, bv = bind.a
        nd = self.dom(dom)
        body = tuple(self.nf(x) for x in rest)
        # composition with a mapped / concatenated domain
        r = self.compose(t.op, nd, bv, body)
        if r is not None:
            return self.nf(r)
        h = 0
        for x in body:
            for s in _sub(x):
                if s.op == "bind" and s.a[1] is not None and s.a[1].a[1] == "b":
                    h = max(h, -s.a[1].a[0])
        nb = bv
        if bv is not None:
            nb = mk("bv", -(h + 1), "b")
            if nb is not bv:
                body = tuple(self._sub_nf(x, {bv: nb}) for x in body)
        nbind = mk("bind", nd, nb)
        return self.finish(t.op, nbind, nd, nb, body)

    def _sub_nf(self, x, m):
        if isinstance(x, tuple):
            return tuple(self._sub_nf(y, m) for y in x)
        if isinstance(x, T):
            return self.nf(subst(x, m, self.rebuild))
        return x

    def rebuild(self, t):
        if t.op in ("poly", "pos", "eq0"):
            return getattr(self, "n_" + t.op)(*t.a) or t
        return t

    def compose(self, op, nd, bv, body):
        if nd.a[0] != "seq" or bv is None:
            return None
        S = nd.a[1]
        if S.op not in ("map", "concat", "list", "ite"):
            return None
        key = mk("item", S, bv)
        # the index itself must not be used
        hole = mk("sym", "@elem")
        probe = tuple(subst2(x, {key: hole}) for x in body)
        if any(bv in _sub(x) for x in probe):
            if S.op == "map" and op in ("map", "exists") and len(S.a[1]) == 1 and S.a[1][0][:2] == ("e", TRUE):
                ib, ys = S.a    # one element per element of the inner collection: the same positions
                return mk(op, mk("bind", ib.a[0], bv), *[subst2(x, {hole: subst2(ys[0][2], {ib.a[1]: bv})}) for x in probe])
            return None
        if S.op == "ite" and op in ("map", "exists"):
            m1 = mk(op, mk("bind", mk("dom", "seq", S.a[1]), bv), *[subst2(x, {hole: mk("item", S.a[1], bv)}) for x in probe])
            m2 = mk(op, mk("bind", mk("dom", "seq", S.a[2]), bv), *[subst2(x, {hole: mk("item", S.a[2], bv)}) for x in probe])
            return ite(S.a[0], m1, m2)
        if S.op == "list" and op == "exists" and not any(x.op == "star" for x in S.a):
            return or_(*[subst2(probe[0], {hole: e}) for e in S.a])
        if S.op == "list" and op == "map" and not any(x.op == "star" for x in S.a):
            parts = []
            for e in S.a:
                for k, g, v in subst2(probe[0], {hole: e}):
                    parts.append(ite(g, mk("list", v) if k == "e" else v, mk("list")))
            return mk("concat", *parts)
        if S.op == "concat" and op in ("map", "exists"):
            out = []
            for part in S.a:
                e = mk("item", part, bv)
                nb = mk("bind", mk("dom", "seq", part), bv)
                out.append(mk(op, nb, *[subst2(x, {hole: e}) for x in probe]))
            return mk("concat", *out) if op == "map" else or_(*out)
        if S.op == "map" and op in ("map", "exists", "dictmap") and all(y[0] == "e" for y in S.a[1]):
            ib, ys = S.a
            fb = mk("bv", next(_fresh), "i")
            ys = subst2(ys, {ib.a[1]: fb})
            nb = mk("bind", ib.a[0], fb)
            if op == "exists":
                return or_(*[mk("exists", nb, and_(g, subst2(probe[0], {hole: e}))) for _, g, e in ys])
            if op == "map":
                out = []
                for _, g, e in ys:
                    for k2, g2, v2 in subst2(probe[0], {hole: e}):
                        out.append((k2, and_(g, g2), v2))
                return mk("map", nb, tuple(out))
            if op == "dictmap":
                out = []
                for _, g, e in ys:
                    for g2, k2, v2 in subst2(probe[0], {hole: e}):
                        out.append((and_(g, g2), k2, v2))
                return mk("dictmap", nb, tuple(out))
        return None

    def finish(self, op, bind, nd, bv, body):
        if op == "exists":
            p = body[0]
            if p is TRUE:
                return self.nonempty(nd)
            if p is FALSE:
                return FALSE
            ds = dnf(p)
            if len(ds) > 1:
                return self.nf(or_(*[mk("exists", bind, and_(*x)) for x in ds]))
            if len(ds) == 1:
                p = and_(*ds[0])
                if p.op == "and":
                    p = self.n_and(*p.a)
                if p is FALSE or p is TRUE:
                    return self.finish(op, bind, nd, bv, (p,))
            conj = list(p.a) if p.op == "and" else [p]
            free = [x for x in conj if bv not in subterms(x)]
            if free:
                rest = [x for x in conj if x not in free]
                return self.nf(and_(*free, mk("exists", bind, and_(*rest) if rest else TRUE)))
            if nd.a[0] == "seq" and len(conj) == 1:
                S, q = nd.a[1], conj[0]
                el = mk("item", S, bv)
                if q.op == "cmp" and q.a[0] == "==":
                    for x, y in ((q.a[1], q.a[2]), (q.a[2], q.a[1])):
                        if x is el and bv not in subterms(y):
                            return self.nf(mk("cmp", "in", y, S))
                if q.op == "eq0":
                    y = self.solve(q.a[0], el)
                    if y is not None and bv not in subterms(y):
                        return self.nf(mk("cmp", "in", y, S))
                # common element of two collections: order-free
                if q.op == "cmp" and q.a[0] == "in" and q.a[1] is el and bv not in subterms(q.a[2]):
                    B = q.a[2]
                    if dig(B) < dig(S):
                        return mk("exists", mk("bind", mk("dom", "seq", B), bv),
                                  mk("cmp", "in", mk("item", B, bv), S))
            return mk("exists", bind, p)
        if op == "map":
            ys = []
            for k, g, e in body[0]:
                if g is FALSE:
                    continue
                if k == "s" and e.op == "list":
                    ys.extend(("e", g, x) for x in e.a)
                elif k == "s" and e.op == "concat":
                    for part in e.a:
                        if part.op == "list":
                            ys.extend(("e", g, x) for x in part.a)
                        elif part.op == "ite" and part.a[1].op == "list" and part.a[2].op == "list":
                            ys.extend(("e", and_(g, part.a[0]), x) for x in part.a[1].a)
                            ys.extend(("e", and_(g, not_(part.a[0])), x) for x in part.a[2].a)
                        else:
                            ys.append(("s", g, part))
                else:
                    ys.append((k, g, e))
            if not ys:
                return mk("list")
            if len(ys) == 1 and ys[0][0] == "e" and ys[0][1] is TRUE and nd.a[0] == "seq" \
                    and ys[0][2] is mk("item", nd.a[1], bv):
                return nd.a[1]
            if len(ys) == 1 and ys[0][0] == "e" and nd.a[0] == "unit":
                return self.nf(ite(ys[0][1], mk("list", ys[0][2]), mk("list")))
            if nd.a[0] == "unit":
                return self.nf(mk("concat", *[ite(g, mk("list", e) if k == "e" else e, mk("list")) for k, g, e in ys]))
            return mk("map", bind, tuple(ys))
        return mk(op, bind, *body)

    def nonempty(self, nd):
        if nd.a[0] == "seq":
            return self.nf(cond(nd.a[1]))
        if nd.a[0] == "range":
            return self.nf(cmp("<", ZERO, nd.a[1]))
        if nd.a[0] == "zip":
            return and_(*[self.nonempty(x) for x in nd.a[1:]])
        return mk("nonempty", nd)

    def dom(self, d):
        k = d.a[0]
        if k == "seq":
            S = self.nf(d.a[1])
            if S.op == "call" and S.a[0] == "builtins.range" and len(S.a[1]) == 1:
                return self.dom(mk("dom", "range", S.a[1][0]))
            if S.op == "map" and len(S.a[1]) == 1 and S.a[1][0][0] == "e" and S.a[1][0][1] is TRUE and False:
                return S.a[0].a[0]
            return mk("dom", "seq", S)
        if k == "range":
            n = self.nf(d.a[1])
            if n.op == "call" and n.a[0] == "builtins.len":
                return mk("dom", "seq", n.a[1][0])
            return mk("dom", "range", n)
        if k == "zip":
            ds = sorted({self.dom(x) for x in d.a[1:]}, key=dig)
            return ds[0] if len(ds) == 1 else mk("dom", "zip", *ds)
        return mk("dom", *[self.nf(x) if isinstance(x, T) else x for x in d.a])

    # ------------------------------------------------------------ arithmetic
    def mono(self, t):
        """Term -> {monomial: coef}; monomial = sorted tuple of (base, exponent)."""
        if t.op == "num":
            return {(): t.a[0]} if t.a[0] else {}
        if t.op == "poly":
            return {m: c for c, m in t.a}
        if t.op == "c" and t.a[0] == "bool":
            return {(): Fraction(int(t.a[1]))} if t.a[1] else {}
        return {((t, Fraction(1)),): Fraction(1)}

    def mkpoly(self, d):
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            return ZERO
        for m in d:
            for b, _ in m:
                if b.op == "c" and b.a == ("float", "nan"):
                    return b  # NaN absorbs
        if len(d) == 1:
            (m, c), = d.items()
            if not m:
                return num(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        items = sorted(((c, m) for m, c in d.items()), key=lambda x: tuple((dig(b), e) for b, e in x[1]))
        return mk("poly", *items)

    def madd(self, a, b, k=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, Fraction(0)) + k * c
        return out

    def mmul1(self, m1, m2):
        ex = {}
        for b, e in m1 + m2:
            ex[b] = ex.get(b, Fraction(0)) + e
        # exp(a)*exp(b) -> exp(a+b)
        exps = [(b, e) for b, e in ex.items() if b.op == "call" and b.a[0] == "numpy.exp" and e.denominator == 1 and e]
        if len(exps) > 1 or any(e != 1 for _, e in exps):
            arg = {}
            for b, e in exps:
                arg = self.madd(arg, self.mono(b.a[1][0]), e)
                del ex[b]
            p = self.mkpoly(arg)
            if p is not ZERO:
                nb = mk("call", "numpy.exp", (p,), ())
                ex[nb] = ex.get(nb, Fraction(0)) + 1
        return tuple(sorted(((b, e) for b, e in ex.items() if e), key=lambda x: dig(x[0])))

    def mmul(self, a, b):
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul1(m1, m2)
                # a sum raised to an integer power reappearing as base^n, n>=1, is expanded
                out[m] = out.get(m, Fraction(0)) + c1 * c2
        return out

    def mpow(self, d, e):
        if e == 0:
            return {(): Fraction(1)}
        if e.denominator == 1 and e > 0 and e <= 4:
            r = d
            for _ in range(int(e) - 1):
                r = self.mmul(r, d)
                if len(r) > 60:
                    break
            return r
        if len(d) == 1:
            (m, c), = d.items()
            if e.denominator == 1:
                return {tuple(sorted(((b, x * e) for b, x in m), key=lambda x: dig(x[0]))): c ** int(e)}
            if c > 0:
                # (c m)^e : keep the radicand whole unless every exponent stays well defined
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return {((m[0][0], e),): Fraction(1)}
                root = rounded(float(c) ** float(e)) if c != 1 else Fraction(1)
                base = self.mkpoly({m: Fraction(1)})
                return {((base, e),): root}
        if not d:
            return {}
        lead = sorted(d.items(), key=lambda x: tuple((dig(b), ee) for b, ee in x[0]))[0][1]
        if e.denominator == 1 or lead > 0:
            base = self.mkpoly({m: c / lead for m, c in d.items()})
            coef = lead ** int(e) if e.denominator == 1 else rounded(float(lead) ** float(e))
            return {((base, e),): coef}
        return {((self.mkpoly(d), e),): Fraction(1)}

    def n_poly(self, *items):
        acc = {}
        for c, m in items:
            cur = {(): c}
            for b, e in m:
                cur = self.mmul(cur, self.mpow(self.mono(self.nf(b)), e))
            acc = self.madd(acc, cur)
        return self.mkpoly(acc)

    def n_bin(self, op, x, y):
        if op in ("+", "-", "*", "/", "**"):
            for p, q, sw in ((x, y, False), (y, x, True)):
                if p.op == "ite":
                    f = (lambda z: self.nf(mk("bin", op, z, q))) if not sw else (lambda z: self.nf(mk("bin", op, q, z)))
                    return ite(p.a[0], f(p.a[1]), f(p.a[2]))
        if op == "+":
            if x.op == "fstr" or y.op == "fstr" or (x.op == "c" and x.a[0] == "str") or (y.op == "c" and y.a[0] == "str"):
                return None
            if self.listy(x) or self.listy(y):
                return self.n_concat(x, y)
            return self.mkpoly(self.madd(self.mono(x), self.mono(y)))
        if op == "-":
            if x.op in ("setof", "set") or y.op in ("setof", "set"):
                return None
            return self.mkpoly(self.madd(self.mono(x), self.mono(y), -1))
        if op == "*":
            if x.op == "list" or y.op == "list" or (x.op == "c" and x.a[0] == "str"):
                return None
            mx, my = self.mono(x), self.mono(y)
            if len(mx) * len(my) <= 80:
                return self.mkpoly(self.mmul(mx, my))
            return None
        if op == "/":
            return self.mkpoly(self.mmul(self.mono(x), self.mpow(self.mono(y), Fraction(-1)))) if y is not ZERO else None
        if op == "**":
            if y.op == "num":
                return self.mkpoly(self.mpow(self.mono(x), y.a[0]))
            return None
        if op == "@":
            if x is y:
                return self.n_sum(self.mkpoly(self.mmul(self.mono(x), self.mono(x))))
            return None
        if op == "|" and (x.op in SETISH or y.op in SETISH):
            return self.n_setunion(x, y)
        if op in ("&", "|") and dig(y) < dig(x):
            return mk("bin", op, y, x)
        return None

    def n_sum(self, x):
        if x.op == "list" and not any(z.op == "star" for z in x.a):
            acc = {}
            for z in x.a:
                acc = self.madd(acc, self.mono(z))
            return self.mkpoly(acc)
        if x.op == "ite":
            return ite(x.a[0], self.n_sum(x.a[1]), self.n_sum(x.a[2]))
        if x.op == "concat":
            acc = {}
            for z in x.a:
                acc = self.madd(acc, self.mono(self.nf(mk("sum", z))))
            return self.mkpoly(acc)
        if x.op == "map" and all(y[0] == "e" for y in x.a[1]):
            bind, ys = x.a
            bv, nd = bind.a[1], bind.a[0]
            acc = {}
            for _, g, e in ys:
                # guards folded from ite elements
                for g2, e2 in _cases(e, g):
                    for m, c in self.mono(e2).items():
                        free = tuple((b, k) for b, k in m if bv not in subterms(b))
                        dep = tuple((b, k) for b, k in m if bv in subterms(b))
                        inner = self.mkpoly({dep: Fraction(1)}) if dep else ONE
                        if inner is ONE and g2 is TRUE:
                            s = self.domlen(nd)
                        else:
                            s = mk("sum", mk("map", bind, (("e", g2, inner),)))
                            if g2 is TRUE and nd.a[0] == "seq" and inner is mk("item", nd.a[1], bv):
                                s = mk("sum", nd.a[1])
                        t = self.mmul({free: c}, self.mono(s))
                        acc = self.madd(acc, t)
            return self.mkpoly(acc)
        if x.op == "poly" and len(x.a) == 1 and x.a[0][0] != 1:
            c, m = x.a[0]
            return self.mkpoly(self.mmul({(): c}, self.mono(mk("sum", self.mkpoly({m: Fraction(1)})))))
        return None

    def domlen(self, nd):
        if nd.a[0] == "seq":
            return self.nf(mk("call", "builtins.len", (nd.a[1],), ()))
        if nd.a[0] == "range":
            return nd.a[1]
        return mk("domlen", nd)

    # ------------------------------------------------------------ comparisons
    def primitive(self, d, sign):
        """Scale a polynomial to a canonical positive (or up-to-sign) multiple."""
        items = sorted(d.items(), key=lambda x: tuple((dig(b), e) for b, e in x[0]))
        nonconst = [x for x in items if x[0]]
        lead = (nonconst or items)[0][1]
        k = abs(lead) if sign else lead
        return {m: c / k for m, c in d.items()}

    def n_pos(self, p):
        p = self.nf(p)
        d = self.mono(p)
        if not d:
            return FALSE
        if list(d) == [()]:
            return TRUE if d[()] > 0 else FALSE
        if p.op == "ite":
            return None
        q = self.mkpoly(d)
        if self.inty(q):
            # p > 0  <=>  not (1 - p > 0) over the integers: canonical orientation
            alt = self.mkpoly(self.madd({(): Fraction(1)}, d, -1))
            lead = sorted((x for x in d.items() if x[0]), key=lambda x: tuple((dig(b), e) for b, e in x[0]))[0][1]
            if lead < 0:
                return not_(self.mkpos(alt))
            return self.mkpos(q)
        return mk("pos", self.mkpoly(self.primitive(d, True)))

    def mkpos(self, q):
        d = self.mono(q)
        # x > 0 with x = len(S): non-emptiness
        if len(d) == 1:
            (m, c), = d.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].a[0] == "builtins.len":
                return self.nf(cond(m[0][0].a[1][0]))
        return mk("pos", q)

    def n_eq0(self, p):
        p = self.nf(p)
        d = self.mono(p)
        if not d:
            return TRUE
        if list(d) == [()]:
            return FALSE
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][0].op == "call" and m[0][0].a[0] == "builtins.len":
                return self.nf(not_(cond(m[0][0].a[1][0])))
        return mk("eq0", self.mkpoly(self.primitive(d, False)))

    def solve(self, p, x):
        """eq0(p) with p linear in atom x -> the term x equals, else None."""
        d = self.mono(p)
        k = ((x, Fraction(1)),)
        if k not in d or any(m != k and any(b is x for b, _ in m) for m in d):
            return None
        c = d[k]
        return self.mkpoly({m: -v / c for m, v in d.items() if m != k})

    def n_cmp(self, op, x, y):
        if op == "<":
            for p, q, sw in ((x, y, False), (y, x, True)):
                if p.op == "ite":
                    a1 = self.nf(mk("cmp", op, p.a[1], q) if not sw else mk("cmp", op, q, p.a[1]))
                    a2 = self.nf(mk("cmp", op, p.a[2], q) if not sw else mk("cmp", op, q, p.a[2]))
                    return or_(and_(p.a[0], a1), and_(not_(p.a[0]), a2))
            if any(z.op == "c" and z.a[0] == "str" for z in (x, y)):
                return mk("cmp", "<", x, y)
            if any(z.op == "c" and z.a[0] == "float" for z in (x, y)):
                return mk("cmp", "<", x, y)
            return self.n_pos(self.mkpoly(self.madd(self.mono(y), self.mono(x), -1)))
        if op == "==":
            for p, q in ((x, y), (y, x)):
                if p.op == "ite":
                    a1 = self.nf(mk("cmp", op, p.a[1], q))
                    a2 = self.nf(mk("cmp", op, p.a[2], q))
                    return or_(and_(p.a[0], a1), and_(not_(p.a[0]), a2))
            if x is y:
                return TRUE
            lit = lambda z: z.op in ("list", "set", "dict") or (z.op == "c")
            if lit(x) or lit(y):
                if x.op == "c" and y.op == "c":
                    return FALSE
                if (x.op == "num") != (y.op == "num") and (x.op == "c" or y.op == "c") and \
                        not any(z.op == "c" and z.a[0] in ("bool", "float") for z in (x, y)):
                    return FALSE
                for p, q in ((x, y), (y, x)):
                    # x == [] / x == set()
                    if q.op in ("list", "set", "dict") and not q.a:
                        return self.nf(not_(cond(p)))
                if y.op != "c" and x.op == "c":
                    x, y = y, x
                return mk("cmp", "==", x, y)
            if x.op in ("num", "poly") or y.op in ("num", "poly") or (self.numeric(x) and self.numeric(y)):
                return self.n_eq0(self.mkpoly(self.madd(self.mono(x), self.mono(y), -1)))
            if dig(y) < dig(x):
                x, y = y, x
            return mk("cmp", "==", x, y)
        if op == "is":
            if y is not NONE and x is NONE:
                x, y = y, x
            if y is NONE:
                if x.op == "ite":
                    a1, a2 = self.nf(mk("cmp", "is", x.a[1], y)), self.nf(mk("cmp", "is", x.a[2], y))
                    return or_(and_(x.a[0], a1), and_(not_(x.a[0]), a2))
                if x is NONE:
                    return TRUE
                if x.op in ("num", "poly", "list", "concat", "map", "dict", "set", "setof", "sum", "fstr", "new",
                            "dictmap", "pos", "eq0", "bin") or (x.op == "c"):
                    return FALSE
            return mk("cmp", "is", x, y)
        if op == "in":
            if y.op == "ite":
                return self.nf(or_(and_(y.a[0], mk("cmp", "in", x, y.a[1])), and_(not_(y.a[0]), mk("cmp", "in", x, y.a[2]))))
            if y.op in ("list", "set") and not any(z.op == "star" for z in y.a):
                return self.nf(or_(*[mk("cmp", "==", x, z) for z in y.a]))
            if y.op == "dict":
                return self.nf(or_(*[mk("cmp", "==", x, k) for k, _ in y.a]))
            if y.op in ("concat", "setunion"):
                return self.nf(or_(*[mk("cmp", "in", x, z) for z in y.a]))
            if y.op == "setof":
                return self.nf(mk("cmp", "in", x, y.a[0]))
            if y.op == "call" and y.a[0] in ("builtins.sorted", "numpy.unique") and y.a[1]:
                return self.nf(mk("cmp", "in", x, y.a[1][0]))
            if y.op == "map" and all(z[0] == "e" for z in y.a[1]):
                return self.nf(or_(*[mk("exists", y.a[0], and_(g, mk("cmp", "==", e, x))) for _, g, e in y.a[1]]))
            if y.op == "map":
                out = []
                for k, g, e in y.a[1]:
                    out.append(mk("exists", y.a[0], and_(g, mk("cmp", "==" if k == "e" else "in", *((e, x) if k == "e" else (x, e))))))
                return self.nf(or_(*out))
            if y.op == "dictmap":
                return self.nf(or_(*[mk("exists", y.a[0], and_(g, mk("cmp", "==", k, x))) for g, k, _ in y.a[1]]))
            if y.op == "bin" and y.a[0] == "&":
                return self.nf(and_(mk("cmp", "in", x, y.a[1]), mk("cmp", "in", x, y.a[2])))
            return mk("cmp", "in", x, y)
        return None

    def n_truth(self, x):
        if x.op in ("num",):
            return TRUE if x.a[0] else FALSE
        if x.op == "c":
            return TRUE if cval(x) else FALSE
        if x.op in BOOL_OPS or x.op in ("pos", "eq0"):
            return x
        if x.op in ("list", "set", "dict") and not any(isinstance(z, T) and z.op == "star" for z in x.a):
            return TRUE if x.a else FALSE
        if x.op == "ite":
            return self.nf(or_(and_(x.a[0], cond(x.a[1])), and_(not_(x.a[0]), cond(x.a[2]))))
        if x.op == "setof":
            return self.nf(cond(x.a[0]))
        if x.op in ("concat", "setunion"):
            return self.nf(or_(*[cond(z) for z in x.a]))
        if x.op == "map":
            out = []
            for k, g, e in x.a[1]:
                out.append(mk("exists", x.a[0], g if k == "e" else and_(g, cond(e))))
            return self.nf(or_(*out))
        if x.op == "dictmap":
            return self.nf(or_(*[mk("exists", x.a[0], g) for g, _, _ in x.a[1]]))
        if x.op == "bin" and (x.a[0] == "&" or x.a[0] == "-" and x.a[1].op in SETISH):
            A, B = x.a[1], x.a[2]
            minus = x.a[0] == "-"
            if A.op in SETISH and (B.op in SETISH or minus):
                out = []
                for P in (A.a if A.op == "setunion" else (A,)):
                    P = P.a[0] if P.op == "setof" else mk("list", *P.a)
                    bv = mk("bv", next(_fresh), "i")
                    isin = mk("cmp", "in", mk("item", P, bv), B)
                    out.append(mk("exists", mk("bind", mk("dom", "seq", P), bv), not_(isin) if minus else isin))
                return self.nf(or_(*out))
        if x.op == "call" and x.a[0] in ("builtins.len", "builtins.sorted") and x.a[1]:
            return self.nf(cond(x.a[1][0]))
        if x.op == "poly" or self.typename(x) in ("int", "float") and not self.optional(x):
            return not_(self.n_eq0(x))
        return mk("truth", x)

    def optional(self, x):
        for it in self.interps:
            ty = it.types.get(x)
            if ty is None and x.op == "attr":
                bt = it.typeof(x.a[0])
                if bt and bt[0] == "cls":
                    ty = it.program.attr_type(bt[1], x.a[1])
            if ty:
                return ty[0] == "opt"
        return True

    # ------------------------------------------------------------ calls / containers
    def n_call(self, f, args, kw):
        if f in VALUE_CASTS and args:
            x = args[0]
            if f == "builtins.float" and x.op == "c":
                return None
            return x
        if f == "builtins.int" and len(args) == 1:
            x = args[0]
            if self.inty(x):
                return x
            if x.op == "ite":
                return ite(x.a[0], self.nf(mk("call", f, (x.a[1],), ())), self.nf(mk("call", f, (x.a[2],), ())))
            if x.op == "num":
                return num(int(x.a[0]))
            return None
        d = dict(kw)
        if f == "numpy.sum" and set(d) <= {"a"} and "a" in d:
            return self.nf(mk("sum", d["a"]))
        if f == "numpy.sum" and not d and len(args) == 1:
            return self.nf(mk("sum", args[0]))
        if f == "numpy.linalg.norm" and "x" in d and "ord" not in d:
            x = d["x"]
            sq = self.mkpoly(self.mmul(self.mono(x), self.mono(x))) if x.op not in ("list", "concat", "map") else None
            if sq is None:
                return None
            if "axis" in d:
                s = mk("call", "numpy.sum", (), (("a", sq), ("axis", d["axis"])))
            else:
                s = self.nf(mk("sum", sq))
            return self.mkpoly(self.mpow(self.mono(s), Fraction(1, 2)))
        if f == "numpy.sqrt" and len(args) == 1:
            return self.mkpoly(self.mpow(self.mono(args[0]), Fraction(1, 2)))
        if f == "builtins.abs" and len(args) == 1:
            dd = self.mono(args[0])
            if args[0].op == "num":
                return num(abs(args[0].a[0]))
            if args[0].op in ("ite",):
                return None
            if dd:
                pr = self.primitive(dd, False)
                lead = next(iter(dd))
                k = abs(dd[lead] / pr[lead])
                base = self.mkpoly(pr)
                if base is not args[0]:
                    return self.mkpoly(self.mmul({(): k}, self.mono(mk("call", f, (base,), ()))))
            return None
        if f in ("numpy.isfinite", "numpy.isnan"):
            x = args[0] if args else d.get("x")
            if x is not None:
                if x.op == "num":
                    return const(f == "numpy.isfinite")
                if x.op == "c" and x.a == ("float", "nan"):
                    return const(f == "numpy.isnan")
                if x.op == "ite":
                    return ite(x.a[0], self.nf(mk("call", f, (x.a[1],), ())), self.nf(mk("call", f, (x.a[2],), ())))
                if not args:
                    return mk("call", f, (x,), ())
        if f == "numpy.exp" and len(args) == 1 and args[0] is ZERO:
            return ONE
        if f == "builtins.set" or f == "builtins.frozenset":
            if len(args) == 1:
                x = args[0]
                if x.op in ("setof", "set"):
                    return x
                if x.op == "list" and not any(z.op == "star" for z in x.a):
                    return self.n_set(*x.a)
                return mk("setof", x)
            if not args:
                return mk("set")
        if f == "builtins.len" and len(args) == 1:
            x = args[0]
            if x.op in ("list", "set", "dict") and not any(isinstance(z, T) and z.op == "star" for z in x.a):
                return num(len(x.a))
            if x.op == "map" and all(y[0] == "e" for y in x.a[1]):
                if len(x.a[1]) == 1 and x.a[1][0][1] is TRUE:
                    return self.domlen(x.a[0].a[0])
                return self.nf(mk("sum", mk("map", x.a[0], tuple(("e", y[1], ONE) for y in x.a[1]))))
            if x.op == "concat":
                acc = {}
                for z in x.a:
                    acc = self.madd(acc, self.mono(self.nf(mk("call", f, (z,), ()))))
                return self.mkpoly(acc)
            if x.op == "ite":
                return ite(x.a[0], self.nf(mk("call", f, (x.a[1],), ())), self.nf(mk("call", f, (x.a[2],), ())))
            if x.op == "call" and x.a[0] == "builtins.sorted":
                return self.nf(mk("call", f, (x.a[1][0],), ()))
            if x.op == "call" and x.a[0] == "builtins.range" and len(x.a[1]) == 1:
                return x.a[1][0]
            return None
        if f in ("builtins.max", "builtins.min") and len(args) > 1 and not kw:
            s = tuple(sorted(set(args), key=dig))
            if all(x.op == "num" for x in s):
                return (max if f.endswith("max") else min)(s, key=lambda x: x.a[0])
            return mk("call", f, s, ()) if s != args else None
        if f == "builtins.sorted" and len(args) == 1 and not kw:
            x = args[0]
            if x.op == "list" and all(z.op == "c" or z.op == "num" for z in x.a):
                try:
                    return mk("list", *sorted(x.a, key=lambda z: z.a[0] if z.op == "num" else cval(z)))
                except TypeError:
                    return None
        if f == "numpy.prod" and len(args) == 1 and args[0].op == "list":
            cur = {(): Fraction(1)}
            for z in args[0].a:
                cur = self.mmul(cur, self.mono(z))
            return self.mkpoly(cur)
        return None

    def n_mcall(self, b, m, args, kw):
        if m == "copy" and not args:
            return b
        if m in ("keys",) and not args:
            return b
        if m == "tolist" and not args:
            return b
        if m == "conjugate":
            return b
        if m in ("union",) and args:
            return self.n_setunion(b, *args)
        if m == "difference" and len(args) == 1:
            return self.nf(mk("bin", "-", mk("setof", b) if b.op not in SETISH else b, args[0]))
        if m in ("issubset", "issuperset") and len(args) == 1:
            x, y = (b, args[0]) if m == "issubset" else (args[0], b)
            return self.nf(not_(mk("truth", mk("bin", "-", mk("setof", x) if x.op not in SETISH else x, y))))
        if m == "intersection" and len(args) == 1:
            return self.nf(mk("bin", "&", mk("setof", b) if b.op != "setof" else b,
                              mk("setof", args[0]) if args[0].op != "setof" else args[0]))
        if b.op == "ite":
            return ite(b.a[0], self.nf(mk("mcall", b.a[1], m, args, kw)), self.nf(mk("mcall", b.a[2], m, args, kw)))
        return None

    def n_tuple(self, *a):
        return self.n_list(*a)

    def n_list(self, *a):
        out = [[]]
        for x in a:
            if x.op == "star":
                out.append(x.a[0])
                out.append([])
            else:
                out[-1].append(x)
        if len(out) == 1:
            return mk("list", *a)
        parts = [mk("list", *p) if isinstance(p, list) else p for p in out if not (isinstance(p, list) and not p)]
        return self.n_concat(*parts)

    def n_set(self, *a):
        if any(x.op == "star" for x in a):
            l = self.n_list(*a)
            return mk("setof", l)
        return mk("set", *sorted(set(a), key=dig))

    def n_setof(self, x):
        if x.op in SETISH:
            return x
        if x.op == "list" and not any(z.op == "star" for z in x.a):
            return self.n_set(*x.a)
        if x.op == "call" and x.a[0] == "builtins.sorted":
            return self.nf(mk("setof", x.a[1][0]))
        return None

    def n_setunion(self, *a):
        parts = []
        for x in a:
            if x.op == "setunion":
                parts.extend(x.a)
            elif x.op == "set" and not x.a:
                continue
            elif x.op in ("setof", "set"):
                parts.append(x)
            else:
                parts.append(mk("setof", x))
        lits = [x for x in parts if x.op == "set"]
        if len(lits) > 1:
            parts = [x for x in parts if x.op != "set"] + [self.n_set(*[y for x in lits for y in x.a])]
        parts = sorted(set(parts), key=dig)
        if not parts:
            return mk("set")
        return parts[0] if len(parts) == 1 else mk("setunion", *parts)

    def n_setadd(self, c, x):
        return self.n_setunion(c, self.n_set(x))

    def n_concat(self, *a):
        parts = []
        for x in a:
            if x.op == "tuple":
                x = mk("list", *x.a)
            sub = x.a if x.op == "concat" else (x,)
            for y in sub:
                if y.op == "list" and not y.a:
                    continue
                if y.op == "list" and parts and parts[-1].op == "list":
                    parts[-1] = mk("list", *parts[-1].a, *y.a)
                else:
                    parts.append(y)
        if not parts:
            return mk("list")
        return parts[0] if len(parts) == 1 else mk("concat", *parts)

    def n_append(self, c, x):
        return self.n_concat(c, mk("list", x))

    def n_extend(self, c, x):
        return self.n_concat(c, x)

    def n_dict(self, *items):
        if all(k.op in ("c", "num") for k, _ in items):
            last = {}
            for k, v in items:
                last[k] = v
            return mk("dict", *sorted(last.items(), key=lambda kv: dig(kv[0])))
        return None

    def n_setitem(self, b, i, v):
        if b.op == "ite":
            return ite(b.a[0], self.nf(mk("setitem", b.a[1], i, v)), self.nf(mk("setitem", b.a[2], i, v)))
        if i.op in ("c", "num"):
            if b.op == "dict" and all(k.op in ("c", "num") for k, _ in b.a):
                return self.n_dict(*b.a, (i, v))
            if b.op == "list" and i.op == "num" and i.a[0].denominator == 1 and not any(z.op == "star" for z in b.a):
                k = int(i.a[0])
                if -len(b.a) <= k < len(b.a):
                    out = list(b.a)
                    out[k] = v
                    return mk("list", *out)
            if b.op == "setitem" and b.a[1].op in ("c", "num"):
                if b.a[1] is i:
                    return self.nf(mk("setitem", b.a[0], i, v))
                neg = any(k.op == "num" and k.a[0] < 0 for k in (b.a[1], i))
                if not neg and dig(i) < dig(b.a[1]):
                    return mk("setitem", self.nf(mk("setitem", b.a[0], i, v)), b.a[1], b.a[2])
        if b.op == "setitem" and b.a[1] is i:
            return self.nf(mk("setitem", b.a[0], i, v))
        if v.op == "item" and v.a[0] is b and v.a[1] is i:
            return b
        if b.op == "setitem" and b.a[2] is v and i.op == b.a[1].op == "path" and dig(i) < dig(b.a[1]):
            return mk("setitem", self.nf(mk("setitem", b.a[0], i, v)), b.a[1], v)    # writes of one value commute
        return None

    def n_item(self, b, i):
        if i.op == "call" and i.a[0] == "builtins.int" and len(i.a[1]) == 1:
            i = i.a[1][0]
        if b.op == "ite":
            return ite(b.a[0], self.nf(mk("item", b.a[1], i)), self.nf(mk("item", b.a[2], i)))
        if i.op == "ite":
            return ite(i.a[0], self.nf(mk("item", b, i.a[1])), self.nf(mk("item", b, i.a[2])))
        if b.op == "list" and i.op == "num" and i.a[0].denominator == 1 and not any(z.op == "star" for z in b.a):
            k = int(i.a[0])
            if -len(b.a) <= k < len(b.a):
                return b.a[k]
        if b.op == "dict" and i.op in ("c", "num"):
            for k, v in b.a:
                if k is i:
                    return v
        if b.op == "map" and len(b.a[1]) == 1 and b.a[1][0][0] == "e" and b.a[1][0][1] is TRUE and i.op not in (
                "slice", "list", "tuple") and not (i.op == "num" and i.a[0] < 0):
            return self.nf(subst(b.a[1][0][2], {b.a[0].a[1]: i}, self.rebuild))
        if i.op == "slice" and all(x is NONE for x in i.a):
            return b
        if i.op == "slice" and i.a[0] is not NONE and i.a[0].op == "poly" and i.a[1] is NONE and i.a[2] is NONE:
            # x[len(x) - m:] is x[-m:]
            ln, lo = self.mono(self.nf(mk("call", "builtins.len", (b,), ()))), self.mono(i.a[0])
            if any(m for m in ln) and all(lo.get(m) == k for m, k in ln.items() if m):
                i = mk("slice", self.mkpoly(self.madd(lo, ln, -1)), NONE, NONE)
        # x[a][b] and x[a, b] on arrays
        if i.op == "list" and not any(x.op == "slice" for x in i.a) and i.a and b.op != "dict" and self.typename(b) != "dict":
            r = b
            for x in i.a:
                r = self.nf(mk("item", r, x))
            return r
        return mk("item", b, i)

    def n_slice(self, a, b, c):
        if a is ZERO:
            a = NONE
        if c is ONE:
            c = NONE
        return mk("slice", a, b, c)

    def n_attr(self, b, n):
        if b.op == "ite":
            return ite(b.a[0], self.nf(mk("attr", b.a[1], n)), self.nf(mk("attr", b.a[2], n)))
        if b.op in ("new", "obj"):
            d = dict(b.a[1])
            if n in d and self.plain_field(b.a[0], n):
                return d[n]
        if n in ("T",) and b.op == "attr" and b.a[1] == "T":
            return b.a[0]
        return mk("attr", b, n)

    def plain_field(self, qual, n):
        for it in self.interps:
            c = it.program.get_class(qual, required=False)
            if c is not None:
                return it.program.is_dataclass(c)
        return False

    def n_fstr(self, *parts):
        out = []
        for p in parts:
            for x in (p.a if p.op == "fstr" else (p,)):
                s = None
                if x.op == "c" and x.a[0] == "str":
                    s = x.a[1]
                elif x.op == "num" and x.a[0].denominator == 1:
                    s = str(x.a[0])
                if s is not None:
                    if out and out[-1].op == "c":
                        out[-1] = const(cval(out[-1]) + s)
                    elif s:
                        out.append(const(s))
                else:
                    out.append(x)
        if not out:
            return const("")
        if len(out) == 1 and out[0].op == "c":
            return out[0]
        if len(out) == 1 and self.typename(out[0]) == "str":
            return out[0]
        return mk("fstr", *out)

    def n_isinstance(self, x, name):
        if x.op == "num":
            return const(name in ("int", "float", "Number", "Real"))
        if x is NONE:
            return FALSE
        return None

    def n_ite(self, c, x, y):
        r = ite(c, x, y)
        # boolean-valued ite
        if r.op == "ite" and _b(r.a[1]) and _b(r.a[2]):
            return or_(and_(r.a[0], r.a[1]), and_(not_(r.a[0]), r.a[2]))
        # x if x is not None else None  ->  x ;  same for x == c
        if r.op == "ite":
            cc, p, q = r.a
            if cc.op == "cmp" and cc.a[0] == "is" and cc.a[2] is NONE and p is NONE and q is cc.a[1]:
                return q
        return r

    def n_not(self, x):
        return not_(x)

    def n_and(self, *xs):
        r = and_(*xs)
        return mk("and", *sorted(r.a, key=dig)) if r.op == "and" else r

    def n_or(self, *xs):
        r = or_(*xs)
        return mk("or", *sorted(r.a, key=dig)) if r.op == "or" else r

    def n_domlen(self, nd):
        return None

    def n_loopret(self, states):
        """Two-pointer merge over two sorted sequences that stops at the first common element."""
        if states.op != "system":
            return None
        tc, brk, trip, rets = states.a
        if brk is not FALSE or len(trip) != 2 or len(rets) != 1 or rets[0][1] is not TRUE:
            return None
        i, j = mk("phiN", 0), mk("phiN", 1)
        conj = rets[0][0].a if rets[0][0].op == "and" else (rets[0][0],)
        eqs = [c for c in conj if c.op == "eq0" or (c.op == "cmp" and c.a[0] == "==")]
        if len(eqs) != 1:
            return None
        e = eqs[0]
        its = [x for x in subterms(e) if x.op == "item" and x.a[1] in (i, j)]
        if len(its) != 2 or {x.a[1] for x in its} != {i, j}:
            return None
        ai = next(x for x in its if x.a[1] is i)
        bj = next(x for x in its if x.a[1] is j)
        A, B = ai.a[0], bj.a[0]
        lt = self.nf(mk("cmp", "<", ai, bj))
        gt = self.nf(mk("cmp", "<", bj, ai))
        ok = all(x.op == "call" and x.a[0] == "builtins.sorted" and not x.a[2] for x in (A, B))
        for v in (TRUE, FALSE):
            m = {e: FALSE, lt: v, gt: not_(v)}
            bi, bj2 = (self.nf(subst(b, m)) for _, b in trip)
            want = (self.nf(mk("bin", "+", i, ONE)), j) if v is TRUE else (i, self.nf(mk("bin", "+", j, ONE)))
            ok = ok and (bi, bj2) == want
        inits = [x for x, _ in trip]
        bound = self.nf(and_(cmp("<", i, mk("call", "builtins.len", (A,), ())), cmp("<", j, mk("call", "builtins.len", (B,), ()))))
        ok = ok and all(x is ZERO for x in inits) and tc is bound
        if ok:
            bv = mk("bv", next(_fresh), "i")
            S1, S2 = A.a[1][0], B.a[1][0]
            return self.nf(mk("exists", mk("bind", mk("dom", "seq", S1), bv), mk("cmp", "in", mk("item", S1, bv), S2)))
        return mk("truth", mk("merge", A, B, tc, tuple(trip)))

    def n_mut(self, *a):
        return mk("mut", *a)


def _b(t):
    return t.op in BOOL_OPS or t.op in ("pos", "eq0") or t in (TRUE, FALSE)


def _cases(e, g):
    if e.op == "ite":
        return _cases(e.a[1], and_(g, e.a[0])) + _cases(e.a[2], and_(g, not_(e.a[0])))
    if g is FALSE:
        return []
    return [(g, e)]


def _sub(x, stop=()):
    if isinstance(x, T) and not stop:
        return subterms(x)
    out, stack = set(), [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple):
            stack.extend(y)
        elif isinstance(y, T) and y not in out:
            out.add(y)
            if y.op not in stop:
                stack.extend(y.a)
    return out


def subst2(x, m):
    if isinstance(x, tuple):
        return tuple(subst2(y, m) for y in x)
    if isinstance(x, T):
        return subst(x, m)
    return x


def _gen():
    n = 10 ** 9
    while True:
        n += 1
        yield n


_fresh = _gen()
