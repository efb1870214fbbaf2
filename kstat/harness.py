"""Obligations: repository functions against the behaviour a property requires."""
from __future__ import annotations

import ast
import json
import os
import re
import textwrap
import time
import traceback

from . import compare as C
from .interp import GaveUp, Interp, close
from .limit import Clock, limited
from .norm import Norm
from .program import AnalysisError, Class, Func, Program
from .terms import FALSE, NONE, T, TRUE, and_, const, mk, not_, or_, show, subterms


class Obligation:
    def __init__(self, oid, rule, where, verdict, why=""):
        self.oid, self.rule, self.where, self.verdict, self.why = oid, rule, where, verdict, why


class Checker:
    """Collects the obligations of one property."""

    EACH = 90  # seconds for one obligation

    def __init__(self, pid, root, tier="quick", overlay=None):
        self.pid, self.root, self.tier = pid, root, tier
        self.program = Program(root, overlay=overlay)
        self.obs = []
        self.analysed = set()
        self.rules = {}
        self.notes = []
        self.cache = {}
        self.clock = Clock(600)
        pinned_vocabulary(self.program)

    # ------------------------------------------------------------ reporting
    def add(self, oid, rule, where, verdict, why=""):
        self.obs.append(Obligation(oid, rule, where, verdict, why))

    def ok(self, oid, rule, where):
        self.add(oid, rule, where, "EQ")

    def bad(self, oid, rule, where, why):
        self.add(oid, rule, where, "NE", why)

    def unknown(self, oid, rule, where, why):
        self.add(oid, rule, where, "UNKNOWN", why)

    def expect(self, cond, oid, rule, where, why):
        (self.ok(oid, rule, where) if cond else self.bad(oid, rule, where, why))
        return cond

    def full_width(self, quals, real=()):
        """Obligation: arrays of these functions (and of the helpers they inline) hold the numbers put into them: no short types, and no
        whole-number type for the attributes that hold real numbers."""
        from . import scan
        todo, seen = [], set()
        for q in quals:
            f = self.program.get_func(q, required=False)
            if f is None:
                self.unknown(f"{self.pid}.{q.split('.', 1)[-1]}:width", "width", q, "function not found")
                continue
            todo.append((q, f))
        for q, f in todo:
            oid = f"{self.pid}.{q.split('.', 1)[-1]}:width"
            group = [f]
            group += [t for t, _ in scan.call_edges(self.program, f, scan_index(self.program)) if t.module is f.module and t is not f]
            bad = None
            for g in group:
                for line, d, attr, node in scan.array_types(g):
                    if d in scan.SHORT:
                        bad = f"{g.module.path}:{line} ({g.qual})", f"numbers are kept as {d}"
                    elif d in scan.WHOLE and attr in real:
                        bad = f"{g.module.path}:{line} ({g.qual})", f"{attr} is kept as {d}"
            if bad:
                self.bad(oid, "width", bad[0], bad[1])
            else:
                self.ok(oid, "width", f.where)

    # ------------------------------------------------------------ summaries
    def func(self, qual):
        return self.program.get_func(qual)

    def summary(self, qual, self_type=None, args=None, **opts):
        key = (qual, self_type, tuple(sorted((args or {}).items())), json.dumps(opts, default=str, sort_keys=True))
        if key not in self.cache:
            f = self.func(qual)
            st = self.program.get_class(self_type) if self_type else None
            it = Interp(self.program, **opts)
            s = it.summarize(f, args, st)
            self.cache[key] = s
            self.analysed |= s.visited
        return self.cache[key]

    def spec_summary(self, like, src, self_type=None, args=None, **opts):
        """Summarise a reference body in the namespace of a repository function."""
        node = ast.parse(textwrap.dedent(src)).body[0]
        ann = {x.arg: x.annotation for x in
               like.node.args.posonlyargs + like.node.args.args + like.node.args.kwonlyargs}
        for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            if x.annotation is None:
                x.annotation = ann.get(x.arg)
        f = Func(like.module, node, "property." + node.name, cls=like.cls)
        if like.is_class and not f.is_class:
            f.is_class = True
        if like.is_static and not f.is_static:
            f.is_static = True
        st = self.program.get_class(self_type) if self_type else None
        it = Interp(self.program, **opts)
        return it.summarize(f, args, st)

    # ------------------------------------------------------------ refinement
    def refine(self, qual, src, what=("ret",), oid=None, self_type=None, args=None, places=None, calls=(),
               stores=(), order=(), spec_opts=None, extra_vocab=(), alts=(), exc=False, **opts):
        """Obligation(s): the observable results of `qual` are those of the reference body."""
        base = oid or f"{self.pid}.{qual.split('.', 1)[-1]}"
        self.attempt(base, "refines", qual, lambda: self._refine_all(
            base, qual, src, what, self_type, args, places, calls, stores, order, spec_opts, extra_vocab, alts, exc, opts))

    def attempt(self, oid, rule, where, run):
        """One obligation within its time limit; what the engine cannot finish is undecided."""
        try:
            why = None if limited(self.clock.left(self.EACH), run) else "time limit"
        except GaveUp as e:
            why = f"not followed: {e}"
        if why:
            self.unknown(oid, rule, where, why)

    def _refine_all(self, base, qual, src, what, self_type, args, places, calls, stores, order, spec_opts, extra_vocab, alts, exc, opts):
        try:
            f = self.func(qual)
        except AnalysisError as e:
            self.anchor_missing(base, qual, e)
            return
        try:
            r = self.summary(qual, self_type, args, **opts)
        except RecursionError:
            self.unknown(base, "refines", f.where, "analysis depth")
            return
        variants = []
        for sp in (src,) + tuple(alts):
            s = self.spec_summary(f, sp, self_type, args, **(spec_opts or opts))
            variants.append(s)
        self._refine(base, f, r, variants, what, places, calls, stores, extra_vocab, exc)
        for pair in order:
            self.ordered(base, f, r, *pair)

    def ordered(self, base, f, r, first, second):
        """Within one loop nest, every `first` call comes before every `second` call."""
        def pick(names):
            names = (names,) if isinstance(names, str) else names
            return [e for e in r.effects if e.kind == "call" and callee_name(e.target) in names
                    or e.kind in ("store", "mutate") and any(n == "=" + str(_attr_of(e.target)) for n in names)]
        A, B = pick(first), pick(second)
        oid = f"{base}:order {_nm(first)} < {_nm(second)}"
        if not A or not B:
            self.unknown(oid, "order", f.where, "a step of the sequence was not found")
            return
        for b in B:
            for a in A:
                ka, kb = [x[0] for x in a.loops], [x[0] for x in b.loops]
                if len(ka) <= len(kb) and ka == kb[:len(ka)] or kb == ka[:len(kb)]:
                    if a.seq > b.seq and and_(a.guard, b.guard) is not FALSE:
                        self.bad(oid, "order", a.where, f"{_nm(first)} happens after {_nm(second)} at {b.where}")
                        return
        self.ok(oid, "order", f.where)

    def _refine(self, base, f, r, variants, what, places, calls, stores, extra_vocab, exc=False):
        def best(get, tag):
            res = None
            for s in variants:
                cmp_ = C.Compare(r.interp, s.interp, extra_vocab=extra_vocab)
                for e in s.effects:
                    cmp_.add_vocab(cmp_.N.nf(e.target))
                v = get(cmp_, s)
                if res is None or (v.k == "EQ") or (v.k == "UNKNOWN" and res.k == "NE"):
                    res = v
                if v.k == "EQ":
                    break
            self.add(f"{base}:{tag}", "refines", f"{f.module.path}:{f.node.lineno} ({f.qual})", res.k, res.why)

        if "ret" in what:
            best(lambda c, s: c.same(r.ret, s.ret, not exc, or_(r.raise_cond(), s.raise_cond())), "ret")
        if "raise" in what:
            best(lambda c, s: c.same(r.raise_cond(), s.raise_cond(), not exc), "raise")
        if "state" in what:
            keys, loopy, alias = set(), set(), {}
            for s in [r] + list(variants):
                pl, lo = _places(s)
                loopy |= lo
                own = Norm([s.interp])
                for k in pl:
                    # the same place may be written with differently phrased keys
                    n = own.nf(s.interp.place_default(k))
                    rep = alias.setdefault(n, k)
                    alias[(id(s), rep)] = k
                    keys.add(rep)
            stores = tuple(stores) + tuple(sorted(a for a in loopy if a not in stores and (places is None or a in places)))
            for k in sorted(keys, key=lambda k: repr(k)):
                if places is not None and not _place_in(k, places):
                    continue
                gone = [n for n in _attr_names(k) if n.startswith("_") and not self.program.mentions_attr(n)]
                if gone:
                    self.unknown(f"{base}:state {show(r.interp.place_default(k), 5)}", "refines",
                                 f"{f.module.path}:{f.node.lineno} ({f.qual})", f"private attribute {gone[0]} is gone")
                    continue
                best(lambda c, s: c.same(_final(r, alias.get((id(r), k), k)), _final(s, alias.get((id(s), k), k)), not exc, or_(r.raise_cond(), s.raise_cond())), "state " + show(r.interp.place_default(k), 5))
        for callee in calls:
            blind = "." + short(callee)
            loose = [len([1 for e in x.effects if e.kind == "call" and callee_name(e.target) == blind]) for x in (r, variants[0])]
            values = [len([1 for e in x.effects if e.kind == "call" and e.target.op == "apply"]) for x in (r, variants[0])]

            def traced(c, s):
                v = c.same(call_trace(r, callee), call_trace(s, callee), not exc, or_(r.raise_cond(), s.raise_cond()))
                if v.k == "NE" and not callee.startswith(".") and loose[0] > loose[1]:
                    return C.V("UNKNOWN", f"{blind[1:]} is called on an object of unknown type")
                if v.k == "NE" and callee != "apply" and values[0] > values[1]:
                    return C.V("UNKNOWN", "a function held in a variable is called")
                return v
            best(traced, "calls " + callee)

        for attr in stores:
            best(lambda c, s: c.same(store_trace(r, attr), store_trace(s, attr), not exc, or_(r.raise_cond(), s.raise_cond())),
                 "stores " + attr)

    def lemma(self, like, left, right, oid, rule="law", self_type=None, args=None, what=("ret",), extra_vocab=(), **opts):
        """Obligation: two bodies that call repository functions agree for all inputs."""
        self.attempt(oid, rule, like, lambda: self._lemma(like, left, right, oid, rule, self_type, args, what, extra_vocab, opts))

    def _lemma(self, like, left, right, oid, rule, self_type, args, what, extra_vocab, opts):
        try:
            f = self.func(like)
        except AnalysisError as e:
            self.anchor_missing(oid, like, e)
            return
        a = self.spec_summary(f, left, self_type, args, **opts)
        self.analysed |= a.visited
        b = self.spec_summary(f, right, self_type, args, **opts)
        c = C.Compare(a.interp, b.interp, extra_vocab=extra_vocab)
        for e in b.effects:
            c.add_vocab(c.N.nf(e.target))
        where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
        for w in what:
            v = c.same(a.ret, b.ret, dead=or_(a.raise_cond(), b.raise_cond())) if w == "ret" else c.same(a.raise_cond(), b.raise_cond())
            self.add(f"{oid}:{w}", rule, where, v.k, v.why)

    def owned(self, qual, attr, oid, param=None, **opts):
        """The stored container is a copy: it is not the caller's own object."""
        f = self.func(qual)
        s = self.summary(qual, **opts)
        param = param or attr
        slf = mk("p", "self")
        v = s.interp.heap.get(("attr", slf, attr))
        where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
        if v is None:
            self.unknown(oid, "ownership", where, f"{attr} is not stored")
        elif aliases(s.interp, v, param):
            self.bad(oid, "ownership", where, f"{attr} keeps a reference to the caller's {param}: later changes by the caller "
                                              "change it")
        else:
            self.ok(oid, "ownership", where)

    def handed_out(self, qual, attr, oid, inner=False, **opts):
        """The value returned is a copy: changing it does not change the object's own `attr` (or, `inner`, what it contains)."""
        f = self.func(qual)
        s = self.summary(qual, **opts)
        own = mk("attr", mk("p", "self"), attr)
        self.add(oid, "ownership", f"{f.module.path}:{f.node.lineno} ({f.qual})", "NE" if views(s.interp, s.ret, own, inner) else "EQ",
                 f"the caller receives the object's own {attr}, so a change of it changes the object")

    def anchor_missing(self, oid, qual, exc):
        raise AnalysisError(f"{oid}: {exc}")

    def compare_terms(self, oid, where, repo_summary, repo_term, spec_summary, spec_term, extra_vocab=(), rule="value"):
        c = C.Compare(repo_summary.interp, spec_summary.interp, extra_vocab=extra_vocab)
        v = c.same(repo_term, spec_term)
        self.add(oid, rule, where, v.k, v.why)
        return v


def aliases(interp, v, param):
    """May the value be the parameter's own object?"""
    v = interp.shallow(v)
    if v.op == "p":
        return v.a[0] == param
    if v.op == "ite":
        return aliases(interp, v.a[1], param) or aliases(interp, v.a[2], param)
    if v.op == "call" and v.a[0] in ("numpy.asarray", "typing.cast", "numpy.asanyarray"):
        xs = list(v.a[1]) + [y for _, y in v.a[2]]
        return any(aliases(interp, x, param) for x in xs[:1])
    return False


VIEW_CALLS = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d", "numpy.ravel", "typing.cast"}


def views(interp, v, own, inner=False):
    """May the value be (a view of) the given place's own object?"""
    v = interp.shallow(v)
    if v is own:
        return True
    if v.op == "ite":
        return views(interp, v.a[1], own, inner) or views(interp, v.a[2], own, inner)
    if v.op == "item":
        return (inner or v.a[1].op == "slice") and views(interp, v.a[0], own, inner)
    if inner and v.op in ("attr", "elem"):
        return views(interp, v.a[0], own, inner)
    if inner and v.op in ("map", "dictmap"):
        return any(views(interp, x, own, inner) for x in _elements(v))
    if v.op == "call" and v.a[1] and (v.a[0] in VIEW_CALLS or v.a[0] == "numpy.array" and ("copy", FALSE) in v.a[2]):
        return views(interp, v.a[1][0], own, inner)
    if v.op == "mcall" and v.a[1] in ("view", "reshape", "ravel", "squeeze"):
        return views(interp, v.a[0], own, inner)
    return False


def _elements(v):
    """The element terms of a map."""
    for x in v.a[1:]:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, tuple):
                yield y[-1]
            elif isinstance(y, T):
                yield y


def _places(s):
    """Places outside the function that it modifies: (state places, attribute names written inside loops)."""
    out, loopy = [], set()
    it = s.interp
    for k in it.heap:
        if k[0] == "cont":
            if k[1] not in it.origin:
                continue
            t = it.origin[k[1]]
            k = it.place_key(t) or ("val", t)
        sub = set().union(*[subterms(x) for x in k[1:] if isinstance(x, T)])
        if any(x.op == "alloc" and x not in it.origin for x in sub):
            continue
        if any(x.op in ("bv", "sym", "phiN") for x in sub):
            continue
        if k not in out:
            out.append(k)
    for e in s.effects:
        if e.kind in ("store", "mutate") and e.loops and any(x.op == "bv" for x in subterms(e.target)):
            loopy.add(_attr_of(e.target))
    return out, loopy - {None}


def _place_in(k, places):
    name = k[2] if k[0] == "attr" else None
    if name is None:
        base = k[1]
        while base.op == "item":
            base = base.a[0]
        name = base.a[1] if base.op == "attr" else (base.a[0] if base.op == "p" else None)
    return name in places


def _attr_names(k):
    out = {k[2]} if k[0] == "attr" else set()
    return out | {x.a[1] for x in subterms(k[1]) if x.op == "attr"}


def _final(s, k):
    h = s.interp.heap
    if k in h:
        return s.interp.deref(h[k])
    return s.interp.deref(s.interp.place_default(k))


def call_trace(s, callee):
    """Calls to a callee as a sequence term: guards, loop context and arguments."""
    return trace([(e, call_args(e.target)) for e in s.effects
                  if e.kind == "call" and callee_name(e.target) == callee])


def store_trace(s, attr):
    """Writes to an attribute (or to items of it) as a sequence term."""
    return trace([(e, mk("tuple", e.target, e.value)) for e in s.effects
                  if e.kind in ("store", "mutate") and _attr_of(e.target) == attr])


def _attr_of(t):
    while t.op in ("item", "elem"):
        t = t.a[0]
    return t.a[1] if t.op == "attr" else None


def _nm(names):
    return "/".join(short(n) for n in ((names,) if isinstance(names, str) else names))


def trace(items):
    """Compared only on runs that do not raise: what happens before an exception is compared through the raise condition."""
    parts = []
    for e, v in items:
        g = e.guard
        if g is FALSE:
            continue
        t = mk("map", mk("bind", mk("dom", "unit"), mk("bv", 0, "u")), (("e", g, v),)) \
            if g is not TRUE else mk("list", v)
        cur = None
        for bind, bv in reversed(e.loops):
            if cur is None:
                cur = mk("map", bind, (("e", g, v),))
            else:
                cur = mk("map", bind, (("s", TRUE, cur),))
        parts.append(cur if cur is not None else t)
    return mk("concat", *parts) if parts else mk("list")


def call_args(t):
    if t.op == "call":
        return mk("dict", *([(const(f"{i}"), x) for i, x in enumerate(t.a[1])] + [(const(k), v) for k, v in t.a[2]]))
    if t.op == "mcall":
        return mk("dict", (const("<self>"), t.a[0]), *([(const(f"{i}"), x) for i, x in enumerate(t.a[2])] +
                                                      [(const(k), v) for k, v in t.a[3]]))
    if t.op == "new":
        return mk("dict", *[(const(k), v) for k, v in t.a[1]])
    return mk("list", t)


def callee_name(t):
    if t.op == "call" or t.op == "new":
        return t.a[0]
    if t.op == "mcall":
        return "." + t.a[1]
    return t.op


def short(qual):
    return qual.rpartition(".")[2]


def pinned_vocabulary(program):
    """Attribute names declared by the package (fields, properties, instance attributes)."""
    names = set()
    for c in program.classes():
        for n, _, _ in c.fields:
            names.add(n)
        for n, m in c.methods.items():
            if m.is_property:
                names.add(n)
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not n.attr.startswith("_"):
                    names.add(n.attr)
    C.PINNED_ATTRS |= {n for n in names if not n.startswith("_")}
    # private attributes whose meaning a reference body fixes
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    for n in sorted(os.listdir(here)):
        if n.endswith(".py"):
            with open(os.path.join(here, n)) as fh:
                C.PINNED_ATTRS |= set(re.findall(r"[.](_[a-z][a-z0-9_]*)\b(?!\()", fh.read()))


def scan_index(program):
    from . import scan
    if not hasattr(program, "_scan_index"):
        idx = {}
        for g in scan.all_functions(program):
            if g.cls is not None:
                idx.setdefault(g.node.name, []).append(g)
        program._scan_index = idx
    return program._scan_index
