"""Three-valued comparison of normal forms: EQ, NE (with the reason), UNKNOWN."""
from __future__ import annotations

import itertools
import sys
from fractions import Fraction

from .norm import NONE, ONE, ZERO, Norm, dig, num, subst2, _sub
from .terms import FALSE, T, TRUE, and_, cond, const, cval, is_const, ite, mk, not_, or_, show, subst, subterms

sys.setrecursionlimit(20000)

EQ, NE, UNKNOWN = "EQ", "NE", "UNKNOWN"


class V:
    __slots__ = ("k", "why")

    def __init__(self, k, why=""):
        self.k, self.why = k, why

    def __repr__(self):
        return f"{self.k}: {self.why}"


_EQ = V(EQ)

# pure functions whose meaning is understood well enough that adding, dropping or
# exchanging them is a change of value
UNDERSTOOD = {
    "builtins.abs", "builtins.max", "builtins.min", "builtins.len", "builtins.int", "builtins.float",
    "numpy.round", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.sqrt", "numpy.exp", "numpy.log",
    "numpy.log10", "numpy.log2", "numpy.log1p", "numpy.expm1", "numpy.sum", "numpy.mean", "numpy.prod",
    "numpy.cumsum", "numpy.searchsorted", "builtins.sorted", "numpy.isfinite", "numpy.isnan", "builtins.reversed",
    "numpy.max", "numpy.min", "builtins.any", "builtins.all", "numpy.any", "numpy.all", "builtins.str",
    "numpy.linalg.norm", "builtins.range", "builtins.sum", "numpy.clip", "numpy.median", "numpy.abs",
    "numpy.zeros", "numpy.ones", "numpy.full", "builtins.divmod", "builtins.pow", "math.copysign", "numpy.sign",
    "builtins.dict.fromkeys", "numpy.linspace", "numpy.polynomial.chebyshev.chebvander", "numpy.inner", "numpy.dot",
    "numpy.cosh", "numpy.sinh", "numpy.tanh", "numpy.std", "numpy.var", "numpy.random.default_rng", "numpy.copy",
}
UNDERSTOOD_METHODS = {"lower", "upper", "strip", "startswith", "endswith", "items", "keys", "values", "index",
                      "random", "get", "copy", "count", "union", "intersection", "difference", "replace", "join", "split",
                      "is_integer", "isdigit", "isalpha", "isnumeric", "isspace", "title", "capitalize", "swapcase", "lstrip", "rstrip"}
TEXT = {"strip", "lstrip", "rstrip", "lower", "upper", "capitalize", "title", "casefold", "swapcase"}
OPAQUE_OPS = {"unk", "foldval", "whileval", "loopval", "loopret", "loopretval", "mutated", "apply", "fn", "excval",
              "afterloop", "unbound", "absent", "alloc", "sym", "nobreak", "phiN", "system", "inv", "upd", "super", "ctx",
              "exc", "dictmerge"}
MERGE_OPS = {"merge"}
PATH_OPS = {"p", "attr", "item", "sk", "bv", "num", "c", "g", "classref", "fnref"}
INJECTIVE = {"numpy.exp", "numpy.log", "numpy.sqrt", "builtins.abs", "builtins.len", "numpy.round", "numpy.floor",
             "numpy.ceil", "builtins.int", "builtins.float", "numpy.sum", "numpy.mean", "numpy.cumsum", "numpy.searchsorted",
             "builtins.sorted", "numpy.isfinite", "numpy.isnan", "numpy.random.default_rng", "numpy.zeros", "builtins.getattr", "numpy.linspace",
             "numpy.polynomial.chebyshev.chebvander", "numpy.ones"}
FLAT = {"numpy.ones", "numpy.zeros"}
CONVERSIONS = {"builtins.int", "builtins.float", "builtins.str", "builtins.bool", "numpy.float64", "numpy.int64", "numpy.array",
               "numpy.asarray", "builtins.list", "builtins.tuple", "copy.copy", "copy.deepcopy"}


class Budget(Exception):
    pass


class Compare:
    def __init__(self, repo_interp, spec_interp, budget=30000, extra_vocab=()):
        self.R, self.S = repo_interp, spec_interp
        self.N = Norm([repo_interp, spec_interp])
        self.budget = budget
        self.vocab = set(extra_vocab)
        self.memo = {}
        self.pruned = 0
        self.dead = FALSE
        self.skdom = {}
        self.sk = itertools.count()
        self.nodes = 0

    # ------------------------------------------------------------ entry
    def same(self, repo, spec, drop_exc=True, dead=None):
        """Compare a repository value with the value the property requires (where `dead` does not hold)."""
        a, b = self.N.nf(repo), self.N.nf(spec)
        if drop_exc:
            a, b = self.no_exc(a), self.no_exc(b)
        self.dead = FALSE
        if dead is not None and dead is not FALSE:
            self.dead = self.N.nf(dead)
            if drop_exc:
                self.dead = self.no_exc(self.dead)
        if a is b:
            return _EQ
        self.add_vocab(b)
        self.required = frozenset(_sub(b))
        self.left = self.budget
        try:
            return self.eq(a, b, {})
        except Budget:
            return V(UNKNOWN, "case budget exhausted")
        except RecursionError:
            return V(UNKNOWN, "term too deep")

    def no_exc(self, t):
        m = {x: FALSE for x in _sub(t) if x.op == "exc"}
        if not m:
            return t
        return self.N.nf(subst(t, m))

    def add_vocab(self, t):
        for x in _sub(t):
            if x.op == "call":
                self.vocab.add(x.a[0])
            elif x.op == "mcall":
                self.vocab.add("." + x.a[1])
            elif x.op == "attr":
                self.vocab.add("@" + x.a[1])
            elif x.op in OPAQUE_OPS:
                self.vocab.add("%" + x.op)
            elif x.op == "bin" and any(y.op in ("set", "setof", "setunion") for y in x.a[1:]):
                self.vocab.add("%setalgebra")

    # ------------------------------------------------------------ vocabulary
    def foreign(self, t):
        """A construct in t the comparison does not understand, or None."""
        for x in _sub(t, MERGE_OPS):
            o = x.op
            if o in OPAQUE_OPS and "%" + o not in self.vocab:
                return o
            if o == "bin" and any(y.op in ("set", "setof", "setunion") for y in x.a[1:]) and "%setalgebra" not in self.vocab:
                return "set algebra"
            if o == "sym" and x.a[0].startswith("phi"):
                return "loop-carried value"
            if o == "call" and x.a[0] == "builtins.getattr" and len(x.a[1]) > 1 and is_const(x.a[1][1]) and f"~{cval(x.a[1][1])}" in self.vocab:
                continue
            if o == "call" and x.a[0] not in UNDERSTOOD and x.a[0] not in self.vocab and not self.known_repo(x.a[0]):
                return x.a[0]
            if o == "mcall" and x.a[1] not in UNDERSTOOD_METHODS and "." + x.a[1] not in self.vocab:
                return "." + x.a[1]
            if o == "attr" and not self.known_attr(x):
                return "." + x.a[1]
        return None

    def known_repo(self, q):
        return False

    def known_attr(self, x):
        n = x.a[1]
        if "@" + n in self.vocab or "~" + n in self.vocab:
            return True
        if n in PINNED_ATTRS:
            return True
        if not n.startswith("_"):
            return n in ("shape", "size", "T", "real", "imag", "a", "b", "c", "matrix", "volume", "specie", "species", "coords",
                         "frac_coords", "properties", "site_properties", "lattice")
        return False

    # ------------------------------------------------------------ case split
    def atoms_of(self, c, out):
        if c.op in ("and", "or", "not"):
            for x in c.a:
                self.atoms_of(x, out)
        elif c not in (TRUE, FALSE):
            if not _bound(c):
                out.append(c)
            # conditions nested in an atom with bound variables cannot be split here

    def find_atom(self, t):
        """First splittable condition atom, outermost first; conditions inside the atom itself are split before it."""
        at = self.find_atom0(t)
        while at is not None:
            inner = self.inner_atom(at)
            if inner is None or inner is at:
                return at
            at = inner
        return None

    def inner_atom(self, at):
        key = ("inner", at)
        if key in self.memo:
            return self.memo[key]
        found, stack, seen = None, list(at.a), set()
        while stack and found is None:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "ite":
                    out = []
                    self.atoms_of(x.a[0], out)
                    if out:
                        found = out[0]
                stack.extend(x.a)
        self.memo[key] = found
        return found

    def find_atom0(self, t):
        if t.op in ("and", "or", "not", "cmp", "truth", "exists", "isinstance", "pos", "eq0", "exc", "nonempty", "loopret"):
            out = []
            self.atoms_of(t, out)
            if out:
                return out[0]
        stack, seen = [t], set()
        while stack:
            nxt = []
            for x in stack:
                if isinstance(x, tuple):
                    nxt.extend(x)
                    continue
                if not isinstance(x, T) or x in seen:
                    continue
                seen.add(x)
                if x.op == "ite":
                    out = []
                    self.atoms_of(x.a[0], out)
                    if out:
                        return out[0]
                if x.op == "map":
                    for k, g, e in x.a[1]:
                        out = []
                        self.atoms_of(g, out)
                        if out:
                            return out[0]
                nxt.extend(x.a)
            stack = nxt
        return None

    def all_atoms(self, t):
        out, seen = [], set()
        stack = [t]
        if t.op in ("and", "or", "not", "cmp", "truth", "exists", "isinstance", "pos", "eq0"):
            self.atoms_of(t, out)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
                continue
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                self.atoms_of(x.a[0], out)
            stack.extend(x.a)
        return list(dict.fromkeys(out))

    def assume(self, t, atom, val):
        m = {atom: TRUE if val else FALSE}
        t2 = subst(t, m, self.N.rebuild)
        if val:
            eqn = self.equation(atom)
            if eqn is not None:
                t2 = subst(t2, {eqn[0]: eqn[1]}, self.N.rebuild)
        return self.N.nf(t2)

    def equation(self, atom):
        if atom.op == "cmp" and atom.a[0] == "==" and atom.a[2].op in ("c", "num") and atom.a[1].op in ("p", "attr", "item", "sk"):
            return atom.a[1], atom.a[2]
        if atom.op == "cmp" and atom.a[0] == "is" and atom.a[2] is NONE:
            return atom.a[1], NONE
        if atom.op == "eq0":
            d = self.N.mono(atom.a[0])
            lin = [m for m in d if m]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1 and set(d) <= {lin[0], ()}:
                x = lin[0][0][0]
                if x.op in ("p", "attr", "item", "sk", "call", "mcall"):
                    return x, num(-d.get((), Fraction(0)) / d[lin[0]])
        return None

    def extend(self, path, at, val):
        """The path with one more decided atom; None when an earlier decision already excludes it."""
        if val and path.get(at) is False or not val and path.get(at) is True:
            return None
        p2 = {}
        for x, v in path.items():
            if x.op == "exists" and at in _sub(x):
                # the collection of the quantifier is chosen by a condition that is now decided
                y = self.assume(x, at, val)
                if y is TRUE or y is FALSE:
                    if (y is TRUE) != v:
                        return None
                    p2[x] = v
                    continue
                if y.op == "not":
                    y, v = y.a[0], not v
                if p2.get(y, v) != v or path.get(y, v) != v:
                    return None
                x = y
            p2[x] = v
        p2[at] = val
        return p2

    def eq(self, a, b, path):
        if a is b:
            return _EQ
        self.left -= 1
        if self.left <= 0:
            raise Budget()
        key = (a, b)
        hit = self.memo.get(key)
        if hit is not None and (hit.k == EQ or not path):
            return hit
        a2, b2 = self.unify(a, b, path)
        if a2 is b2:
            return _EQ
        at = None if self.componentwise(a2, b2) else self.find_atom(b2) or self.find_atom(a2)
        pruned = self.pruned
        if at is None:
            r = self.leaf(a2, b2, path)
        else:
            r = None
            unk = None
            for val in (True, False):
                p2 = self.extend(path, at, val)
                if p2 is None or self.inconsistent(p2):
                    if path:
                        self.pruned += 1
                    continue
                r1 = self.eq(self.assume(a2, at, val), self.assume(b2, at, val), p2)
                if r1.k == NE:
                    return r1
                if r1.k == UNKNOWN:
                    unk = r1
            r = unk or _EQ
        if r.k == EQ and (self.pruned == pruned or not path):
            self.memo[key] = r
        return r

    def componentwise(self, a, b):
        """Displays of one shape are equal exactly when their components are."""
        if a.op != b.op:
            return False
        if a.op == "list":
            return len(a.a) == len(b.a) and not any(x.op == "star" for x in a.a + b.a)
        if a.op == "dict":
            return all(k.op in ("c", "num") for k, _ in a.a + b.a) and {k for k, _ in a.a} == {k for k, _ in b.a}
        return False

    def unify(self, a, b, path):
        """Identify semantically equal but differently written atoms."""
        A = {x for x in _sub(a) if x.op in ("exists", "first", "last", "sum", "map", "call", "mcall") and not _bound_free(x)}
        if not A:
            return a, b
        B = {x for x in _sub(b) if x.op in ("exists", "first", "last", "sum", "map", "call", "mcall") and not _bound_free(x)}
        onlyA = sorted((x for x in A if x not in B and x.op in ("exists", "first", "last", "sum", "map")), key=dig)[:12]
        onlyB = sorted((x for x in B if x not in A and x.op in ("exists", "first", "last", "sum", "map")), key=dig)[:12]
        m = {}
        for x in onlyA:
            for y in onlyB:
                if x.op == y.op and x is not a and y is not b:
                    k = ("u", x, y)
                    v = self.memo.get(k)
                    if v is None:
                        self.memo[k] = V(UNKNOWN)
                        v = self.binder_eq(x, y, {})
                        self.memo[k] = v
                    if v.k == EQ:
                        m[x] = y
                        break
        if m:
            a = self.N.nf(subst(a, m, self.N.rebuild))
        return a, b

    # ------------------------------------------------------------ theory of guards
    def inconsistent(self, path):
        facts = {}
        lin = {}
        for at, val in path.items():
            if at.op == "cmp" and at.a[0] == "is" and at.a[2] is NONE:
                facts.setdefault(at.a[1], {})["none"] = val
            elif at.op == "truth":
                facts.setdefault(at.a[0], {})["truth"] = val
            elif at.op == "isinstance":
                facts.setdefault(at.a[0], {}).setdefault("inst", {})[at.a[1]] = val
            elif at.op == "cmp" and at.a[0] == "==" and at.a[2].op in ("c", "num"):
                facts.setdefault(at.a[1], {}).setdefault("eq", {})[at.a[2]] = val
            elif at.op in ("eq0", "pos"):
                d = self.N.mono(at.a[0])
                c0 = d.get((), Fraction(0))
                rest = {m: c for m, c in d.items() if m}
                items = sorted(rest.items(), key=lambda x: tuple((dig(b), e) for b, e in x[0]))
                k = items[0][1]
                form = tuple((m, c / k) for m, c in items)
                bound = -c0 / k
                # k*(form - bound) ? 0
                if at.op == "eq0":
                    lin.setdefault(form, []).append(("==" if val else "!=", bound))
                elif k > 0:
                    lin.setdefault(form, []).append((">" if val else "<=", bound))
                else:
                    lin.setdefault(form, []).append(("<" if val else ">=", bound))
        for x, f in facts.items():
            none, truth, inst, eq = f.get("none"), f.get("truth"), f.get("inst", {}), f.get("eq", {})
            if none and truth:
                return True
            if none and any(inst.values()):
                return True
            if none and any(eq.values()):
                return True
            trues = [c for c, v in eq.items() if v]
            if len(trues) > 1:
                return True
            if trues and truth is not None:
                c = trues[0]
                tv = bool(c.a[0]) if c.op == "num" else bool(cval(c))
                if tv != truth:
                    return True
            builtin = [n for n, v in inst.items() if v and n in ("str", "int", "float", "list", "dict", "tuple", "set", "bool", "bytes")]
            if len(builtin) > 1 and set(builtin) != {"int", "bool"}:
                return True
            if trues and trues[0].op == "c" and trues[0].a[0] == "str" and (inst.get("str") is False or
                                                                            any(v for n, v in inst.items() if n in ("int", "float", "list", "dict"))):
                return True
        for form, cs in lin.items():
            if len(form) == 1 and len(form[0][0]) == 1:
                (m, c), = form
                b, e = m[0]
                if e == 1 and b.op == "call" and b.a[0] == "builtins.len":
                    cs = cs + [(">=", Fraction(0))]
                    t = facts.get(b.a[1][0], {}).get("truth")
                    if t is True:
                        cs.append((">", Fraction(0)))
                    elif t is False:
                        cs.append(("==", Fraction(0)))
                f = facts.get(b, {})
                if e == 1 and f.get("none") is True:
                    # comparison evaluated on None cannot happen
                    return True
                if e == 1 and f.get("truth") is False and f.get("none") is False:
                    cs = cs + [("==", Fraction(0))]
                if e == 1 and f.get("truth") is True:
                    cs = cs + [("!=", Fraction(0))]
            isint = all(c.denominator == 1 and all(self.N.inty(b) and e > 0 and e.denominator == 1 for b, e in m) for m, c in form)
            if _interval_empty(cs, isint):
                return True
        for at, val in path.items():
            if at.op == "exists" and val:
                nd = at.a[0].a[0]
                if nd.a[0] == "seq" and facts.get(nd.a[1], {}).get("truth") is False:
                    return True
            if at.op == "cmp" and at.a[0] == "in" and val and facts.get(at.a[2], {}).get("truth") is False:
                return True
            if at.op == "cmp" and at.a[0] == "in" and val and facts.get(at.a[2], {}).get("none") is True:
                return True
        pos = [at for at, val in path.items() if val and at.op == "exists"]
        if pos:
            for at in pos:
                negs = frozenset(x for x, val in path.items() if not val and x.op == "exists" and x.a[0].a[0] is at.a[0].a[0])
                if negs and self.no_witness(at, negs):
                    return True
        if self.skdom:
            sks = None
            for at, val in path.items():
                if not val and at.op == "exists":
                    if sks is None:
                        sks = {x for p in path for x in _sub(p) if x.op == "sk"}
                    for k in sks:
                        if self.skdom.get(k) is at.a[0].a[0] and self.contradicted(at, k, path):
                            return True
        return False

    def contradicted(self, at, k, path):
        """The element k of the collection satisfies, on this path, what the negated existential excludes."""
        b = self.N.nf(self.body(at, k, None))
        for x, v in path.items():
            if x is not at and (x in _sub(b) or v and (self.equation(x) or (None,))[0] in _sub(b)):
                b = self.assume(b, x, v)
                if b is TRUE or b is FALSE:
                    break
        if b is TRUE or b is FALSE:
            return b is TRUE
        return False

    def no_witness(self, at, negs):
        """exists x: B(x) cannot hold together with the negated existentials over the same collection."""
        key = ("w", at, negs)
        hit = self.memo.get(key)
        if hit is None:
            self.memo[key] = _EQ  # guards against recursion: assume consistent
            k = mk("sk", next(self.sk))
            body = and_(*[self.body(at, k, None)] + [not_(self.body(x, k, None)) for x in sorted(negs, key=dig)])
            body = self.N.nf(body)
            ok = body is not FALSE and self.reachable(self.N.nf(not_(body)), {})
            hit = _EQ if ok else V(NE)
            self.memo[key] = hit
        return hit.k == NE

    # ------------------------------------------------------------ leaves
    def leaf(self, a, b, path):
        r = self.leaf0(a, b, path)
        if r.k != EQ and self.dead is not FALSE:
            d = self.dead
            for at, val in path.items():
                d = self.assume(d, at, val)
            if not self.reachable(d, path):
                self.pruned += 1
                return _EQ
        if r.k == NE:
            # a difference is definite only when every guard leading here is understood
            for at in path:
                f = self.foreign(at)
                if f:
                    return V(UNKNOWN, f"guard uses {f}")
        return r

    def reachable(self, dead, path):
        """Is there a case of `path` in which `dead` does not hold?"""
        if dead is FALSE:
            return True
        if dead is TRUE:
            return False
        self.left -= 1
        if self.left <= 0:
            raise Budget()
        at = self.find_atom(dead)
        if at is None:
            return True
        for val in (False, True):
            p2 = self.extend(path, at, val)
            if p2 is not None and not self.inconsistent(p2) and self.reachable(self.assume(dead, at, val), p2):
                return True
        return False

    def leaf0(self, a, b, path):
        if a is b:
            return _EQ
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.a[0] == "builtins.int" and len(x.a[1]) == 1 and x.a[1][0] is y and not (
                    self.N.typename(y) == "float"):
                return V(UNKNOWN, "integer conversion")
        if a.op == "num" and b.op == "num":
            return _EQ if _close(a.a[0], b.a[0]) else V(NE, self.msg(a, b, path))
        if a.op in ("c", "num") and b.op in ("c", "num"):
            return V(NE, self.msg(a, b, path))
        if a.op == "c" and a.a[0] in ("NoneType", "str") and b.op in ("poly", "num", "list", "dict", "set", "map", "concat", "sum", "new",
                                                                       "dictmap", "setof", "obj") or a is NONE and b.op == "fstr":
            return V(NE, self.msg(a, b, path))
        if a.op in ("poly", "num") or b.op in ("poly", "num"):
            return self.poly(a, b, path)
        if a.op == "item" and a.a[0] is b and self.path(b) and a.a[1].op == "slice" and any(x is not NONE for x in a.a[1].a) \
                and self.foreign(a) is None and not any(b in _sub(at) for at in path):
            return V(NE, self.msg(a, b, path))  # a part of the entries against all of them
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.a[0] in ("builtins.sorted", "builtins.dict.fromkeys") and len(x.a[1]) == 1 and x.a[1][0] is y \
                    and (y.op == "concat" and all(self.path(z) for z in y.a) or (y.op == "call" and y.a[0].startswith("kmcpy.") or y.op == "map" and self.varied(y))
                         and not self.foreign(y)):
                return V(NE, self.msg(a, b, path))  # the entries sorted, or each once, against the entries as they come
            root = y.a[0] if y.op == "item" else y
            if x.op == "call" and root.op == "call" and (root.a[0].startswith("kmcpy.") or root.a[0] == "numpy.empty") \
                    and self.bounded(x, y) and not self.foreign(y):
                return V(NE, self.msg(a, b, path))  # a bounded value against the value
            if x.op == "bv" and y.op == "list" and len(y.a) > 1 and not self.foreign(a) and y.a[0] is not x:
                return V(NE, self.msg(a, b, path))  # the entry against several values of it
            if x.op == "item" and x.a[0] is y and x.a[1].op == "slice" and y.op in ("call", "mcall", "map") and self.cut(x.a[1]) \
                    and not self.foreign(y):
                return V(NE, self.msg(a, b, path))  # a part against the whole
            if x.op == "item" and x.a[1].op in ("c", "num") and y.op == "call" and y.a[0] in ("builtins.max", "builtins.min") \
                    and len(y.a[1]) == 1 and y.a[1][0] is x.a[0] and x.a[0].op == "map" and not self.foreign(y):
                return V(NE, self.msg(a, b, path))  # the entry at a fixed place against the largest or smallest
            if x.op == "mcall" and x.a[1] in TEXT and not x.a[2] and self.path(y) and not self.foreign(y):
                z = x
                while z.op == "mcall" and z.a[1] in TEXT and not z.a[2]:
                    z = z.a[0]
                if z is y and not any(x in _sub(at) for at in path):
                    return V(NE, self.msg(a, b, path))  # a respelled text against the text
        if a.op == b.op:
            f = getattr(self, "l_" + a.op, None)
            if f is not None:
                return f(a, b, path)
            if a.op in ("map", "dictmap", "exists", "first", "last", "loopval"):
                return self.binder_eq(a, b, path)
            if len(a.a) == len(b.a):
                return self.children(a, b, path, a.op in ("attr", "item", "new", "truth", "isinstance", "slice", "fstr",
                                                          "setof", "star", "fmt", "pos", "eq0", "obj", "setitem", "append"))
            if a.op == b.op == "or" and self.choices(a) and self.choices(b) and self.choices(a)[0] is self.choices(b)[0]:
                return V(NE, self.msg(a, b, path))  # one of several fixed values: other values
            return V(UNKNOWN, f"{a.op} arity")
        # a plain sequence seen as an identity map
        if b.op == "map" and b.a[0].a[0].a[0] == "seq" and a is b.a[0].a[0].a[1]:
            bv = b.a[0].a[1]
            return self.binder_eq(mk("map", b.a[0], (("e", TRUE, mk("item", a, bv)),)), b, path)
        if a.op == "map" and a.a[0].a[0].a[0] == "seq" and b is a.a[0].a[0].a[1]:
            bv = a.a[0].a[1]
            return self.binder_eq(a, mk("map", a.a[0], (("e", TRUE, mk("item", b, bv)),)), path)
        if a.op == "list" and not a.a and b.op in ("map", "concat", "p", "attr", "item"):
            return V(NE, self.msg(a, b, path))
        if b.op == "list" and not b.a and a.op in ("map", "concat", "p", "attr", "item"):
            f = self.foreign(a)
            return V(UNKNOWN, f"uses {f}") if f else V(NE, self.msg(a, b, path))
        if a.op == "concat" or b.op == "concat":
            return self.l_concat(a, b, path)
        for x, y in ((a, b), (b, a)):
            if y.op == "upd" and y.a[0] is x and y.a[1].op == "dictmap":
                some = self.N.nf(mk("nonempty", y.a[1].a[0]))
                if path.get(some) is False:
                    return _EQ
                f = self.foreign(a)
                return V(UNKNOWN, f"uses {f}") if f else V(NE, self.msg(a, b, path))
            if y.op in ("setitem", "mutated") and self.base_of(y) is x or y.op == "setunion" and any(z is x for z in y.a):
                f = self.foreign(a)
                return V(UNKNOWN, f"uses {f}") if f else V(NE, self.msg(a, b, path))
        for x, y in ((a, b), (b, a)):
            if x.op == "foldval" and y.op == "upd" and self.repeats(x, y):
                return V(NE, self.msg(a, b, path) + " (they differ when a key is written twice)")
        if a.op == "dictmerge" or b.op == "dictmerge":
            return self.l_dictmerge(a, b, path)
        pa, pb = self.path(a), self.path(b)
        for x, y, py in ((a, b, pb), (b, a, pa)):
            if x.op == "absent" and py and y.op in ("p", "attr", "item") and self.apart(y, NONE, path):
                # an argument that is left out takes a fixed default; here it has to follow a value
                return V(NE, self.msg(a, b, path))
        if pa and b.op in ("set", "dict") and not b.a:
            f = self.foreign(a)
            return V(UNKNOWN, f"reads {f}") if f else V(NE, self.msg(a, b, path))
        if pa and pb:
            f = self.foreign(a)
            if f:
                return V(UNKNOWN, f"reads {f}")
            return V(NE, self.msg(a, b, path))
        if pa and b.op in ("c", "num"):
            f = self.foreign(a)
            if f:
                return V(UNKNOWN, f"reads {f}")
            if not self.apart(a, b, path):
                return V(UNKNOWN, "value constrained on this path")
            return V(NE, self.msg(a, b, path))
        if pb and a.op in ("c", "num") and self.apart(b, a, path):
            return V(NE, self.msg(a, b, path))
        if pb or b.op in ("c", "num"):
            # a computation where the property wants the plain value
            f = self.foreign(a)
            if f is None and a.op in ("call", "mcall", "list", "dict", "set", "setof", "bin", "new"):
                if a.op == "bin" and a.a[0] in ("%", "//", "@"):
                    return V(NE, self.msg(a, b, path))
                if a.op in ("list", "dict", "set") or (a.op == "call" and (a.a[0] in UNDERSTOOD or a.a[0] in self.vocab)) or (
                        a.op == "mcall" and "." + a.a[1] in self.vocab):
                    return V(NE, self.msg(a, b, path))
            return V(UNKNOWN, f"uses {f or a.op}: " + self.msg(a, b, path))
        if pa and b.op == "map" and len(b.a[1]) == 1 and b.a[1][0][0] == "e" and b.a[1][0][1] is TRUE:
            e = b.a[1][0][2]
            if self.foreign(a) is None and (e.op in ("mcall", "poly", "bin") or e.op == "call" and e.a[0] not in CONVERSIONS):
                return V(NE, self.msg(a, b, path))
        for x, y in ((a, b), (b, a)):
            if x.op == "call" and x.a[0] in FLAT and y.op == "item" and y.a[0].op == "call" and y.a[0].a[0] in UNDERSTOOD \
                    and y.a[0].a[0] not in FLAT and self.foreign(a) is None:
                return V(NE, self.msg(a, b, path))
        if pa or a.op in ("c", "num"):
            f = self.foreign(a)
            if f is None and b.op in ("call", "mcall", "bin", "new", "first", "last", "sum", "dict", "setof", "fstr"):
                return V(NE, self.msg(a, b, path))
            if f is None and a.op == "p" and b.op == "item" and a not in _sub(b) and not any(
                    a in _sub(at) and at.op in ("cmp", "in") and not (at.a[1] is NONE or at.a[2] is NONE) for at in path):
                return V(NE, self.msg(a, b, path))  # a free argument against a value that does not depend on it
            return V(UNKNOWN, f"{a.op} against {b.op}: " + self.msg(a, b, path))
        if a.op == "call" and b.op == "call":
            return self.l_call(a, b, path)
        for x, y in ((a, b), (b, a)):
            if x.op == "fstr" and y.op == "call" and y.a[0] in ("builtins.int", "builtins.float", "builtins.len") and not self.foreign(a):
                return V(NE, self.msg(a, b, path))  # text against a number
        for x, y in ((a, b), (b, a)):
            if x.op == "list" and not any(z.op == "star" for z in x.a) and y.op == "map" and y.a[0].a[0].a[0] == "seq" \
                    and self.path(y.a[0].a[0].a[1]) and all(z[0] == "e" and z[1] is TRUE for z in y.a[1]) and not self.foreign(a):
                D = y.a[0].a[0].a[1]
                if not any(D in _sub(at) for at in path if at.op != "isinstance"):
                    return V(NE, self.msg(a, b, path))  # a fixed number of elements against any number
        if a.op == "new" and b.op == "mcall" and b.a[1] in ("item", "tolist") and not self.foreign(a):
            return V(NE, self.msg(a, b, path))  # an object of the package against plain numbers
        for x, y in ((a, b), (b, a)):
            if y.op == "item" and y.a[1].op == "slice" and y.a[0].op == "map" and (x is NONE or x is y.a[0]) and not self.foreign(a):
                return V(NE, self.msg(a, b, path))  # the first n entries against all, or none
        if {a.op, b.op} == {"call", "new"} and (a if a.op == "call" else b).a[0] in self.vocab:
            f = self.foreign(a)
            if f is None:
                return V(NE, self.msg(a, b, path))
        return V(UNKNOWN, f"{a.op} against {b.op}: " + self.msg(a, b, path))

    def l_fstr(self, a, b, path):
        if len(a.a) == len(b.a):
            return self.children(a, b, path, True)
        f = self.foreign(a)
        if f:
            return V(UNKNOWN, f"uses {f}")
        holes = [[x for x in t.a if x.op != "c"] for t in (a, b)]
        if all(self.path(x) for h in holes for x in h) and set(holes[0]) != set(holes[1]):
            return V(NE, self.msg(a, b, path))
        return V(UNKNOWN, "text built differently: " + self.msg(a, b, path))

    def l_dictmerge(self, a, b, path):
        """Layered mappings: layer by layer; a missing layer is a difference."""
        def parts(t):
            return parts(t.a[0]) + parts(t.a[1]) if t.op == "dictmerge" else [t]
        xs, ys = parts(a), parts(b)
        f = next((g for g in map(self.foreign, xs) if g), None)
        if f:
            return V(UNKNOWN, f"uses {f}")
        if len(xs) == len(ys):
            return self.children(mk("layers", *xs), mk("layers", *ys), path, True)
        if a is NONE:
            return V(NE, self.msg(a, b, path))
        short, long = (xs, ys) if len(xs) < len(ys) else (ys, xs)
        i = 0
        for z in long:
            if i < len(short) and z is short[i]:
                i += 1
        return V(NE if i == len(short) else UNKNOWN, self.msg(a, b, path))

    def base_of(self, t):
        while t.op in ("setitem", "mutated"):
            t = t.a[0]
        return t

    def apart(self, t, k, path):
        """A place and a constant: nothing on this path ties the place to the constant."""
        eq = self.N.nf(mk("cmp", "is" if k is NONE else "==", t, k))
        if path.get(eq) is False:
            return True
        falsy = (k.op == "num" and not k.a[0]) or (k.op == "c" and not cval(k))
        for at, v in path.items():
            if at.op == "truth" and at.a[0] is t:
                if not v and falsy:
                    return False
            elif at.op == "isinstance":
                continue
            elif at.op == "cmp" and at.a[0] == "is" and any(x is NONE for x in at.a[1:]):
                if v and any(x is t for x in at.a[1:]):
                    return False
            elif at.op == "cmp" and v and any(x is t for x in subterms(at)):
                if at.a[0] in ("==", "is") and any(x is t for x in at.a[1:3]) or at.a[0] == "in" and at.a[1] is t:
                    return False
        if eq is TRUE:
            return False
        if eq is not FALSE and self.inconsistent({**path, eq: False}):
            return False
        return True

    def path(self, t):
        if t.op in ("call", "mcall"):
            return False
        while t.op in ("attr", "item"):
            if t.op == "item" and not self.path(t.a[1]) and t.a[1].op not in ("num", "c", "slice", "poly", "list"):
                return False
            t = t.a[0]
        return t.op in ("p", "sk", "bv", "g", "classref", "fnref") or (
            t.op == "call" and t.a[0].startswith("kmcpy.") and t.a[0] in self.vocab)

    def msg(self, a, b, path):
        s = f"computes {show(a, 7)} where the property requires {show(b, 7)}"
        if path:
            s += " when " + " and ".join((show(k, 5) if v else f"not {show(k, 5)}") for k, v in list(path.items())[:6])
        return s[:900]

    def children(self, a, b, path, definite):
        bad, unk, nbad = None, None, 0
        xs, ys = list(_flat(a.a)), list(_flat(b.a))
        if len(xs) != len(ys):
            return V(UNKNOWN, f"{a.op} shape")
        for x, y in zip(xs, ys):
            if isinstance(x, T) and isinstance(y, T):
                r = self.eq(x, y, path)
                if r.k == NE:
                    bad, nbad = bad or r, nbad + 1
                elif r.k == UNKNOWN:
                    unk = r
            elif x != y:
                r = V(NE, self.msg(a, b, path))
                bad, nbad = bad or r, nbad + 1
        if bad is None:
            return unk or _EQ
        if unk is not None:
            return unk
        if definite or nbad == 1:
            return bad
        return V(UNKNOWN, bad.why)

    def l_attr(self, a, b, path):
        r = self.eq(a.a[0], b.a[0], path)
        if a.a[1] == b.a[1]:
            return r
        if not self.known_attr(a):
            return V(UNKNOWN, f"reads .{a.a[1]}")
        if r.k == EQ or self.path(a) and self.path(b):
            return V(NE, self.msg(a, b, path))
        return V(UNKNOWN, f"{show(a)} against {show(b)}")

    def l_p(self, a, b, path):
        return V(NE, self.msg(a, b, path))

    l_sk = l_p

    def l_g(self, a, b, path):
        return V(NE, self.msg(a, b, path)) if a.a[0] != b.a[0] else _EQ

    def l_c(self, a, b, path):
        return V(NE, self.msg(a, b, path))

    def l_list(self, a, b, path):
        if len(a.a) != len(b.a):
            return V(NE, self.msg(a, b, path))
        return self.children(a, b, path, True)

    def l_set(self, a, b, path):
        if all(x.op in ("c", "num") for x in a.a + b.a):
            return V(NE, self.msg(a, b, path))
        xs, ys = list(a.a), list(b.a)
        for x in list(xs):
            for y in ys:
                if self.eq(x, y, path).k == EQ:
                    xs.remove(x)
                    ys.remove(y)
                    break
        if not xs and not ys:
            return _EQ
        if len(xs) == len(ys) == 1:
            return self.children(mk("tuple", *xs), mk("tuple", *ys), path, False)
        for one, other in ((xs, b.a), (ys, a.a)):
            if one and not self.foreign(a) and all(self.eq(x, y, path).k == NE for x in one for y in other):
                return V(NE, self.msg(a, b, path))
        return V(UNKNOWN, "sets differ")

    def l_dict(self, a, b, path):
        if all(k.op in ("c", "num") for k, _ in a.a + b.a):
            da, db = dict(a.a), dict(b.a)
            if set(da) != set(db):
                miss = [show(k) for k in db if k not in da]
                extra = [show(k) for k in da if k not in db]
                return V(NE, f"mapping keys differ: missing {miss}, unexpected {extra}")
            out = None
            for k in db:
                r = self.eq(da[k], db[k], path)
                if r.k == NE:
                    return V(NE, f"entry {show(k)}: {r.why}")
                if r.k == UNKNOWN:
                    out = r
            return out or _EQ
        if len(a.a) == len(b.a):
            return self.children(a, b, path, True)
        return V(UNKNOWN, "dict shape")

    def l_concat(self, a, b, path):
        pa = list(a.a) if a.op == "concat" else [a]
        pb = list(b.a) if b.op == "concat" else [b]
        if len(pa) == len(pb):
            if pa != pb and len(set(pa)) == len(pa) and set(pa) == set(pb) and not self.foreign(a):
                return V(NE, self.msg(a, b, path))  # the same parts one after the other in another order
            res = [self.eq(x, y, path) for x, y in zip(pa, pb)]
            for k in (UNKNOWN, NE):
                for r in res:
                    if r.k == k:
                        return r
            return _EQ
        f = self.foreign(a)
        if f:
            return V(UNKNOWN, f"uses {f}")
        short, long_ = (pa, pb) if len(pa) < len(pb) else (pb, pa)
        it = iter(long_)
        if all(any(self.eq(x, y, path).k == EQ for y in it) for x in short):
            return V(NE, self.msg(a, b, path))
        return V(UNKNOWN, "concatenations differ")

    def l_call(self, a, b, path):
        if a.a[0] != b.a[0]:
            f = self.foreign(a)
            if f:
                return V(UNKNOWN, f"calls {f}")
            if a.a[0] in UNDERSTOOD and b.a[0] in UNDERSTOOD:
                return V(NE, self.msg(a, b, path))
            if a in self.required and b.a[0] in self.vocab and a not in _sub(b) and b not in _sub(a) and "builtins" not in a.a[0] + b.a[0]:
                return V(NE, self.msg(a, b, path))  # another of the values the property names
            return V(UNKNOWN, f"calls {a.a[0]} against {b.a[0]}")
        ka, kb = dict(a.a[2]), dict(b.a[2])
        if a.a[0] == "dataclasses.replace" and len(a.a[1]) == len(b.a[1]) == 1 and None not in ka and None not in kb \
                and set(ka) != set(kb):
            # a field that is not replaced keeps the value it has
            ka = {**{k: mk("attr", a.a[1][0], k) for k in kb}, **ka}
            kb = {**{k: mk("attr", b.a[1][0], k) for k in ka}, **kb}
            return self.eq(mk("call", a.a[0], a.a[1], tuple(sorted(ka.items()))),
                           mk("call", b.a[0], b.a[1], tuple(sorted(kb.items()))), path)
        if set(ka) != set(kb) or len(a.a[1]) != len(b.a[1]):
            if a.a[0] in UNDERSTOOD or a.a[0] in self.vocab:
                if a.a[0] in SIDE_KW:
                    for k in set(ka) ^ set(kb):
                        v = ka.get(k, kb.get(k))
                        if k in SIDE_KW[a.a[0]] and v is SIDE_KW[a.a[0]][k]:
                            continue
                        return V(NE, self.msg(a, b, path))
                    ka = {k: v for k, v in ka.items() if k in kb}
                    kb = {k: v for k, v in kb.items() if k in ka}
                    a2 = mk("call", a.a[0], a.a[1], tuple(sorted(ka.items())))
                    b2 = mk("call", b.a[0], b.a[1], tuple(sorted(kb.items())))
                    return self.eq(a2, b2, path) if (a2, b2) != (a, b) else V(UNKNOWN, "call shape")
            extra = {k: v for k, v in ka.items() if k not in kb}
            if len(a.a[1]) == len(b.a[1]) and not set(kb) - set(ka) and extra and None not in extra and a.a[0] in self.vocab \
                    and not a.a[0].startswith("kmcpy.") and all(self.eq(x, y, path).k == EQ for x, y in zip(a.a[1], b.a[1])) \
                    and all(self.eq(ka[k], kb[k], path).k == EQ for k in kb) and not self.foreign(a) \
                    and any(k not in ("out", "dtype") and _sub(v) - {v} for k, v in extra.items()):
                return V(NE, self.msg(a, b, path))  # a further argument that is computed from data
            return V(UNKNOWN, f"call of {a.a[0]} with a different shape")
        definite = a.a[0] in INJECTIVE or a.a[0].startswith("kmcpy.") or a.a[0].startswith("~") \
            or a.a[0] == "dataclasses.replace"
        return self.children(a, b, path, definite)

    def l_mcall(self, a, b, path):
        if a.a[1] != b.a[1]:
            r = self.eq(a.a[0], b.a[0], path)
            if r.k == EQ and "." + a.a[1] in self.vocab:
                return V(NE, self.msg(a, b, path))
            return V(UNKNOWN, f"method {a.a[1]} against {b.a[1]}")
        if len(a.a[2]) != len(b.a[2]) or [k for k, _ in a.a[3]] != [k for k, _ in b.a[3]]:
            return V(UNKNOWN, f"method {a.a[1]} call shape")
        return self.children(a, b, path, True)

    def l_new(self, a, b, path):
        if a.a[0] != b.a[0]:
            return V(NE, self.msg(a, b, path))
        da, db = dict(a.a[1]), dict(b.a[1])
        out = None
        for k in sorted(set(da) | set(db)):
            if k not in da:
                return V(NE, f"{a.a[0]} built without {k}") if k not in OPTIONAL_NEW else V(UNKNOWN, k)
            if k not in db:
                out = out or V(UNKNOWN, f"{a.a[0]} built with extra {k}")
                continue
            r = self.eq(da[k], db[k], path)
            if r.k == NE:
                return V(NE, f"{k}: {r.why}")
            if r.k == UNKNOWN:
                out = r
        return out or _EQ

    def l_bin(self, a, b, path):
        if a.a[0] != b.a[0]:
            return V(NE, self.msg(a, b, path))
        return self.children(a, b, path, True)

    def choices(self, t):
        """(x, constants) for x == c1 or x == c2 ..., else None."""
        who, vals, over = None, set(), None
        for i, d in enumerate(t.a):
            bind = d.a[0] if d.op == "exists" else None
            if i and bind is not over:
                return None
            over = bind
            d = d.a[1] if bind is not None else d
            if not isinstance(d, T) or d.op != "cmp" or d.a[0] != "==":
                return None
            x, y = d.a[1], d.a[2]
            if x.op == "c":
                x, y = y, x
            if y.op != "c" or x.op == "c" or who is not None and x is not who:
                return None
            who = x
            vals.add(y)
        return who, vals

    def l_cmp(self, a, b, path):
        if a.a[0] != b.a[0]:
            return V(UNKNOWN, "comparison kinds")
        return self.children(a, b, path, True)

    # ------------------------------------------------------------ binders
    def binder_eq(self, a, b, path):
        if a.op == "sum":
            if a.a[0].op == "map" and b.a[0].op == "map":
                return self.binder_eq(a.a[0], b.a[0], path)
            return self.eq(a.a[0], b.a[0], path)
        if not (a.a and isinstance(a.a[0], T) and a.a[0].op == "bind" and b.a[0].op == "bind"):
            return V(UNKNOWN, a.op)
        da, db = a.a[0].a[0], b.a[0].a[0]
        dv = _EQ
        if da is not db:
            if da.a[0] == db.a[0] == "seq" or da.a[0] == db.a[0] == "range":
                dv = self.eq(da.a[1], db.a[1], path)
            elif da.a[0] == db.a[0] == "zip" and len(da.a) == len(db.a):
                xs, ys = [x for x in da.a[1:] if x not in db.a[1:]], [y for y in db.a[1:] if y not in da.a[1:]]
                kind = lambda d: (d.a[0], d.a[1].op if isinstance(d.a[1], T) else "")
                xs.sort(key=kind)
                ys.sort(key=kind)
                if [kind(x) for x in xs] == [kind(y) for y in ys] and len({kind(x) for x in xs}) == len(xs) and all(
                        x.a[0] in ("seq", "range") for x in xs):
                    rs = [self.eq(x.a[1], y.a[1], path) for x, y in zip(xs, ys)]
                    dv = next((r for r in rs if r.k == NE), next((r for r in rs if r.k == UNKNOWN), _EQ))
                else:
                    dv = V(UNKNOWN, "zipped iteration domains differ")
            elif a.op == b.op == "map" and self.other_length(a, b) and not self.foreign(a):
                dv = V(NE, self.msg(a, b, path))
            else:
                dv = V(UNKNOWN, "iteration domains differ in kind")
            if dv.k == NE:
                return V(NE, f"iterates over a different collection: {dv.why}")
            if dv.k == UNKNOWN:
                return dv
        k = mk("sk", next(self.sk))
        self.skdom[k] = db
        ba = self.body(a, k, db)
        bb = self.body(b, k, db)
        if a.a[0].a[1] is not None and da is not db:
            m = {mk("item", da.a[1], k): mk("item", db.a[1], k)} if da.a[0] == "seq" else {}
            if m:
                ba = subst(ba, m, self.N.rebuild)
        return self.eq(self.N.nf(ba), self.N.nf(bb), path)

    def varied(self, t):
        """A map of one value per entry of some collection, and the value is not the position."""
        return len(t.a[1]) == 1 and t.a[1][0][:2] == ("e", TRUE) and t.a[0].a[0].a[0] == "seq" and self.path(t.a[0].a[0].a[1]) \
            and t.a[0].a[1] is not t.a[1][0][2]

    @staticmethod
    def bounded(x, y):
        """x is y with its sign, small values, or out-of-range values changed."""
        if x.a[0] == "builtins.abs":
            return x.a[1] == (y,)
        if x.a[0] in ("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum"):
            return len(x.a[1]) == 2 and any(z is y for z in x.a[1]) and any(z.op in ("c", "num") for z in x.a[1])
        if x.a[0] == "numpy.where":
            parts = list(x.a[1]) + [v for k, v in x.a[2] if k != "c"]
            return any(z is y for z in parts) and any(z.op in ("c", "num") for z in parts)
        return False

    @staticmethod
    def cut(sl):
        lo, hi, st = sl.a
        num = lambda t: int(t.a[0]) if t.op == "num" else cval(t) if t.op == "c" else "?"
        return num(st) in (None, 1) and "?" not in (num(lo), num(hi)) and (num(lo) not in (None, 0) or num(hi) is not None)

    def other_length(self, a, b):
        """One map runs over all entries of a sequence, the other over a fixed number fewer or more; each yields one per step."""
        if any(len(t.a[1]) != 1 or t.a[1][0][:2] != ("e", TRUE) for t in (a, b)):
            return False
        for x, y in ((a, b), (b, a)):
            dx, dy = x.a[0].a[0], y.a[0].a[0]
            if dx.a[0] == "range" and dy.a[0] == "seq" and isinstance(dx.a[1], T):
                n = self.N.mono(dx.a[1])
                whole = self.N.mono(mk("call", "builtins.len", (dy.a[1],), ()))
                if len(whole) == 1:
                    rest = {m: v for m, v in n.items() if m not in whole}
                    if all(n.get(m) == v for m, v in whole.items()) and set(rest) == {()}:
                        return True
        return False

    def body(self, t, k, dom):
        bv = t.a[0].a[1]
        m = {bv: k} if bv is not None else {}
        rest = subst2(t.a[1:], m)
        if t.op == "map":
            return mk("concat", *[ite(g, mk("list", e) if kk == "e" else e, mk("list")) for kk, g, e in rest[0]])
        if t.op == "dictmap":
            return mk("concat", *[ite(g, mk("list", mk("list", kk, v)), mk("list")) for g, kk, v in rest[0]])
        if t.op == "exists":
            return rest[0]
        if t.op in ("first", "last"):
            g, v = rest
            return mk("list", ite(g, mk("list", v), mk("list")))
        return mk("list", *[x for x in _flat(rest) if isinstance(x, T)])

    # ------------------------------------------------------------ polynomials
    def poly(self, a, b, path):
        ma, mb = self.N.mono(a), self.N.mono(b)
        basesA = {x for m in ma for x, _ in m}
        basesB = {x for m in mb for x, _ in m}
        onlyA = sorted(basesA - basesB, key=dig)
        onlyB = sorted(basesB - basesA, key=dig)
        sub, unk, matched = {}, None, set()
        pairs = []
        for x in onlyA:
            for y in onlyB:
                if y in matched:
                    continue
                if x.op != y.op and not (x.op in PATH_OPS and y.op in PATH_OPS) and x.op not in ("poly",):
                    r = V(UNKNOWN, f"{x.op} against {y.op}: " + self.msg(a, b, path)) if not (self.path(x) or self.path(y)) else V(NE, self.msg(x, y, path))
                else:
                    r = self.eq(x, y, path)
                if r.k == EQ:
                    sub[x] = y
                    matched.add(y)
                    break
                pairs.append((x, y, r))
        if sub:
            a2 = self.N.nf(subst(a, sub, self.N.rebuild))
            if a2 is b:
                return _EQ
            ma = self.N.mono(a2)
            a = a2
        keys = set(ma) | set(mb)
        if all(_close(ma.get(k, 0), mb.get(k, 0)) for k in keys):
            return _EQ
        restA = [x for x in onlyA if x not in sub]
        restB = [y for y in onlyB if y not in matched]
        for x in restA:
            f = self.foreign(x)
            if f:
                return V(UNKNOWN, f"uses {f}")
        for one, other, rest in ((a, b, restB), (b, a, restA)):
            for y in rest:
                if y.op == "setitem" and self.N.nf(subst(other, {y: self.base_of(y)}, self.N.rebuild)) is one:
                    return V(NE, self.msg(a, b, path))  # an element update is missing on one side
        for x, y, r in pairs:
            if x in restA and y in restB and r.k == UNKNOWN:
                return r
        # one side has compound bases the other lacks entirely: e.g. sum(...) against len(...)
        return V(NE, self.msg(a, b, path))

    def repeats(self, fold, upd):
        """The same writes in the same order, one side reading what it wrote before, over a sequence that may repeat a key."""
        st = fold.a[0]
        k = fold.a[1]
        if st.op != "system" or not isinstance(k, int) or k >= len(st.a[2]):
            return False
        if st.a[1] is not FALSE or st.a[3] or upd.a[1].op != "dictmap" or st.a[0].op != "bind":
            return False
        init, step = st.a[2][k]
        bind = upd.a[1].a[0]
        if init is not upd.a[0] or st.a[0].a[0] is not bind.a[0]:
            return False
        phi, bv = mk("phiN", k), bind.a[1]
        if any(t.op == "phiN" and t is not phi for t in subterms(step)):
            return False
        writes = []
        while step is not phi:
            if step.op != "setitem":
                return False
            writes.append(step.a[1:])
            step = step.a[0]
        ren = {st.a[0].a[1]: bv}
        want = [(kk, v) for g, kk, v in upd.a[1].a[1] if g is TRUE]
        if len(want) != len(writes) or len(want) != len(upd.a[1].a[1]):
            return False
        seen = False
        for (k1, v1), (k2, v2) in zip(reversed(writes), want):
            k1, v1 = (self.N.nf(subst(t, ren, self.N.rebuild)) for t in (k1, v1))
            if k1 is not k2 or any(t is phi for t in subterms(k1)):
                return False
            if v1 is v2:
                continue
            if not any(t is phi for t in subterms(v1)):
                return False
            if not self.may_repeat(bind, k1):
                return False
            if v1.op == "ite" and any(t is phi for t in subterms(v1.a[0])) and v2 in v1.a[1:]:
                seen = True  # kept if present already, against overwritten
            elif self.N.nf(subst(v1, {phi: init}, self.N.rebuild)) is v2:
                seen = True  # computed from the value written before, against from the original one
            else:
                return False
        return seen

    def may_repeat(self, bind, key):
        """The keys of an unconstrained sequence, or parts of the keys of a table, may coincide."""
        dom = bind.a[0]
        if dom.a[0] != "seq" or self.foreign(dom):
            return False
        src = dom.a[1]
        if src.op in ("p", "attr"):
            return key.op == "path" or key.op in ("item", "elem") and key.a[0] is src and not self.is_table(src)
        return key.op == "path"

    def is_table(self, t):
        return t.op == "attr" or any(i.typeof(t) in ("dict", "set") for i in (self.R, self.S))

    # -- aliasing of ops
    def l_item(self, a, b, path):
        r0 = self.eq(a.a[0], b.a[0], path)
        r1 = self.eq(a.a[1], b.a[1], path)
        for r in (r0, r1):
            if r.k == UNKNOWN:
                return r
        if NE in (r0.k, r1.k):
            f = self.foreign(a)
            if f:
                return V(UNKNOWN, f"reads {f}")
            return V(NE, self.msg(a, b, path))
        return _EQ


PINNED_ATTRS: set = set()
SIDE_KW = {"numpy.searchsorted": {"side": const("left")}, "builtins.sorted": {"reverse": FALSE},
           "numpy.sum": {"axis": NONE}, "numpy.mean": {"axis": NONE}, "numpy.cumsum": {"axis": NONE}}
OPTIONAL_NEW: set = set()


def _flat(xs):
    for x in xs:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


def _close(x, y):
    if x == y:
        return True
    d = abs(x - y)
    return d <= Fraction(1, 10 ** 11) * max(abs(x), abs(y))


def _bound(t):
    return any(x.op == "bv" for x in _free_bvs(t))


_FB: dict = {}


def _free_bvs(t):
    r = _FB.get(t)
    if r is None:
        bound = set()
        out = set()
        if t.op == "bv":
            out = {t}
        else:
            if t.a and isinstance(t.a[0], T) and t.a[0].op == "bind":
                bound = {t.a[0].a[1]}
            for x in _flat(t.a):
                if isinstance(x, T) and x.op != "bind":
                    out |= _free_bvs(x)
                elif isinstance(x, T):
                    out |= _free_bvs(x.a[0])
            out -= bound
        r = frozenset(out)
        _FB[t] = r
    return r


def _bound_free(t):
    return bool(_free_bvs(t))


def _interval_empty(cs, isint):
    lo, los, hi, his = None, False, None, False
    ne = set()
    for op, b in cs:
        if op == "==":
            for o in (">=", "<="):
                pass
            if lo is None or b > lo or (b == lo and not los):
                lo, los = (b, False) if lo is None or b > lo else (lo, los)
            if lo is not None and b < lo:
                return True
            if lo == b and los:
                return True
            if hi is not None and (b > hi or (b == hi and his)):
                return True
            hi, his = b, False
            lo, los = b, False
        elif op == "!=":
            ne.add(b)
        elif op in (">", ">="):
            if isint and op == ">":
                b, op = (b + 1 if b.denominator == 1 else b), ">="
            s = op == ">"
            if lo is None or b > lo or (b == lo and s):
                lo, los = b, s
        else:
            if isint and op == "<":
                b, op = (b - 1 if b.denominator == 1 else b), "<="
            s = op == "<"
            if hi is None or b < hi or (b == hi and s):
                hi, his = b, s
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (los or his)):
                return True
    if lo is not None and lo == hi and lo in ne:
        return True
    if isint and lo is not None and hi is not None and hi - lo < 50:
        import math
        vals = range(math.ceil(lo), math.floor(hi) + 1)
        if all(v in ne for v in vals):
            return True
    return False
