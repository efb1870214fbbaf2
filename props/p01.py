import ast

from kstat import scan
from props.common import KMC, TR, run_spec

TITLE = "A seeded run is a pure function of its inputs"

ROOTS = [KMC + ".run", KMC + ".__init__", KMC + ".from_config", KMC + ".update", KMC + ".propose",
         TR + ".update", TR + ".sample_properties", TR + ".write_results"]

TIME = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.process_time",
        "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"}
FIXED = {"os.urandom", "os.getpid", "builtins.hash", "builtins.id", "os.listdir", "os.scandir", "glob.glob", "glob.iglob"}
STRINGY = ("specie", "species", "label", "symbol", "name", "identifier", "token")


def generator(c):
    """The generator of a run is created afresh by run() from the configured seed, before any draw."""
    run_spec(c, what=("state",), places={"rng"})
    run_spec(c, order=[("numpy.random.default_rng", KMC + ".propose")], oid="P01.run")


def draws(c):
    c.refine(KMC + ".propose", """
def propose(self, events):
    u = self.rng.random()
    v = self.rng.random()
    total = self.prob_cum_list[-1]
    return events[np.searchsorted(self.prob_cum_list / total, u, side="right")], -np.log(v) / total
""", what=("ret", "state"))


def sources(c):
    """No other source of nondeterminism is reachable from a run."""
    p = c.program
    funcs = scan.reachable(p, [r for r in ROOTS if p.get_func(r, required=False)])
    run = p.get_func(KMC + ".run")
    n_calls = 0
    for f in funcs.values():
        c.analysed.add(f.qual)
        imps = scan.local_imports(f)
        parents = {ch: n for n in ast.walk(f.node) for ch in ast.iter_child_nodes(n)}
        bad = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                n_calls += 1
                q = scan.resolve_name(f, n.func, imps)
                if q is None:
                    continue
                if q.startswith("random.") or q.startswith("secrets.") or q.startswith("uuid.") or q in FIXED:
                    if q in ("os.listdir", "os.scandir", "glob.glob", "glob.iglob") and sorted_around(parents, n):
                        continue
                    if q in ("builtins.id", "builtins.hash") and in_hash_method(f):
                        continue
                    bad.append((n, q))
                elif q.startswith("numpy.random."):
                    if q == "numpy.random.default_rng" and only_run_uses(p, funcs, f, run):
                        continue        # decided by `generator`
                    bad.append((n, q))
                elif q in TIME and not textual(parents, n):
                    bad.append((n, q))
            for it in iterated(n):
                if string_set(f, it) and not order_free(parents, n):
                    bad.append((it, "iteration over an unordered set of strings"))
        oid = f"P01.source:{f.qual}"
        for n, q in bad:
            c.bad(oid, "nondeterminism source", f"{f.module.path}:{n.lineno} ({f.qual})",
                  f"{q} is reachable from a simulation run and does not come from the configured seed")
        if not bad:
            c.ok(oid, "nondeterminism source", f.where)
    c.notes.append(f"{len(funcs)} functions reachable from {len(ROOTS)} entry points, {n_calls} call sites resolved")


def only_run_uses(p, funcs, f, run):
    """default_rng in run() itself or in a helper that only run() (transitively) calls."""
    if f is run:
        return True
    idx = {}
    for g in scan.all_functions(p):
        if g.cls is not None:
            idx.setdefault(g.name, []).append(g)
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        callers = [h for h in scan.all_functions(p) if any(t is g for t, _ in scan.call_edges(p, h, idx))]
        if not callers:
            return False
        for h in callers:
            if h is not run:
                todo.append(h)
    return run.qual not in seen


def sorted_around(parents, n):
    while n in parents:
        n = parents[n]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "len", "set", "min", "max"):
            return True
        if isinstance(n, ast.stmt):
            return False
    return False


def textual(parents, n):
    while n in parents:
        n = parents[n]
        if isinstance(n, ast.Attribute) and n.attr in ("strftime", "isoformat", "ctime"):
            return True
        if isinstance(n, (ast.JoinedStr,)):
            return True
        if isinstance(n, ast.stmt):
            return False
    return False


def in_hash_method(f):
    return f.name in ("__hash__", "__repr__", "get_hash")


def iterated(n):
    if isinstance(n, (ast.For, ast.comprehension)):
        yield n.iter
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "zip"):
        for a in n.args:
            yield a


def string_set(f, e):
    """Is the iterated expression a set whose elements are strings?"""
    if isinstance(e, ast.Name):
        defs = [s.value for s in ast.walk(f.node) if isinstance(s, ast.Assign)
                and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
        defs += [s.value for s in ast.walk(f.node) if isinstance(s, ast.AnnAssign) and s.value is not None
                 and isinstance(s.target, ast.Name) and s.target.id == e.id]
        return bool(defs) and all(not isinstance(d, ast.Name) and string_set(f, d) for d in defs)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
        return string_set(f, e.left) or string_set(f, e.right)
    if isinstance(e, ast.Set):
        return any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts)
    if isinstance(e, ast.SetComp):
        return stringy(e.elt)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        if not e.args:
            return False
        a = e.args[0]
        if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
            return stringy(a.elt)
        return stringy(a)
    return False


def stringy(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id in ("str", "repr"):
            return True
        if e.func.id in ("int", "len", "float"):
            return False
    if isinstance(e, ast.Constant):
        return isinstance(e.value, str)
    nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""
    low = nm.lower()
    return any(low == s or low == s + "s" or low.endswith("_" + s) or low.endswith("_" + s + "s") for s in STRINGY)


def order_free(parents, n):
    if isinstance(n, ast.For):
        return all(isinstance(s, (ast.Raise, ast.Expr, ast.If)) and not any(
            isinstance(x, (ast.Call,)) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend")
            or isinstance(x, (ast.Return, ast.Yield, ast.Break)) for x in ast.walk(s)) for s in n.body)
    p = parents.get(n)
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in (
                "sorted", "any", "all", "set", "frozenset", "len", "sum", "min", "max"):
            return True
        if isinstance(p, (ast.SetComp,)):
            return True
        p = parents.get(p)
    return False


def hidden_state(c):
    """Nothing reachable from a run keeps results in process-wide state (globals, class attributes, memoised functions)."""
    p = c.program
    funcs = scan.reachable(p, [r for r in ROOTS if p.get_func(r, required=False)])
    for f in funcs.values():
        bad = []
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Global,)):
                for nm in n.names:
                    if any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                        bad.append((n, f"rebinds module global {nm}"))
            tgts = []
            if isinstance(n, ast.Assign):
                tgts = n.targets
            elif isinstance(n, ast.AugAssign):
                tgts = [n.target]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "add", "update", "setdefault", "insert", "pop", "clear"):
                if module_container(f, n.func.value):
                    bad.append((n, f"mutates module-level {ast.unparse(n.func.value)}"))
            for t in tgts:
                if isinstance(t, ast.Subscript) and module_container(f, t.value):
                    bad.append((n, f"mutates module-level {ast.unparse(t.value)}"))
                if isinstance(t, ast.Attribute) and class_target(p, f, t.value):
                    bad.append((n, f"writes class attribute {ast.unparse(t)}"))
        for d in f.node.args.defaults + [x for x in f.node.args.kw_defaults if x is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) and mutated_default(f, d):
                bad.append((d, "mutates a shared default argument"))
        oid = f"P01.hidden:{f.qual}"
        for n, why in bad:
            c.bad(oid, "hidden state", f"{f.module.path}:{n.lineno} ({f.qual})", why + ": a second run in the same process differs")
        if not bad:
            c.ok(oid, "hidden state", f.where)


def module_container(f, e):
    while isinstance(e, ast.Subscript):
        e = e.value
    if not isinstance(e, ast.Name) or e.id in scan.bound_locals(f):
        return False
    v = f.module.consts.get(e.id)
    return isinstance(v, (ast.Dict, ast.List, ast.Set)) or (
        isinstance(v, ast.Call) and scan.dotted(v.func) in ("dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary"))


def class_target(p, f, e):
    if isinstance(e, ast.Name):
        if e.id == "cls" and f.is_class:
            return True
        if e.id in f.module.classes and e.id not in scan.bound_locals(f):
            return True
    d = ast.unparse(e)
    return d in ("type(self)", "self.__class__")


def mutated_default(f, d):
    a = f.node.args
    pos = a.posonlyargs + a.args
    names = [x.arg for x, y in zip(pos[len(pos) - len(a.defaults):], a.defaults) if y is d] + \
            [x.arg for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is d]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in names and n.func.attr in ("append", "extend", "add", "update", "setdefault", "insert", "pop"):
            return True
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names:
                    return True
    return False


OBLIGATIONS = [generator, draws, sources, hidden_state]
