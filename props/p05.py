import ast

from kstat import scan
from props.common import KMC

TITLE = "Hops conserve species; only accepted events change the state"
ST = "kmcpy.simulator.state.State"


def swap(c):
    c.refine(ST + ".apply_event", """
def apply_event(self, event, dt):
    a, b = event.mobile_ion_indices
    x = self.occupations[a]
    self.occupations[a] = self.occupations[b]
    self.occupations[b] = x
    self.time = self.time + dt
    self.step = self.step + 1
""", what=("ret", "raise", "state"))


def construct(c):
    c.refine(ST + ".__init__", """
def __init__(self, occupations, time=0.0, step=0):
    self.occupations = list(occupations)
    self.time = float(time)
    self.step = int(step)
""", what=("raise", "state"))
    c.refine(ST + ".copy", """
def copy(self):
    return State(occupations=self.occupations, time=self.time, step=self.step)
""", what=("ret", "state"))
    c.owned(ST + ".__init__", "occupations", "P05.State:owns its occupations")


def writers(c):
    """No code outside State writes occupations, time or step of a state."""
    n = 0
    inside = {f.qual for f in scan.all_functions(c.program) if f.cls is not None and f.cls.qual == ST}
    for f in scan.all_functions(c.program):
        if f.qual in inside:
            continue
        for node, what in state_writes(c.program, f):
            n += 1
            c.bad(f"P05.writer:{f.qual}", "single writer", f"{f.module.path}:{node.lineno} ({f.qual})",
                  f"{what} of the simulation state is modified outside the state object")
    c.ok("P05.writer:package", "single writer", "kmcpy")
    n = sum(1 for _ in scan.all_functions(c.program))
    c.notes.append(f"{n} functions scanned for writes of occupations/time/step")


MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "fill", "put", "itemset"}


def state_names(f):
    """Local names bound to the occupations list itself (not a copy)."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and is_occ(n.value, set()):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.add(t.id)
    return out


def is_occ(e, names):
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute) and e.attr == "occupations":
        return state_expr(e.value)
    return False


def state_expr(e):
    if isinstance(e, ast.Name):
        return e.id in ("state", "simulation_state", "initial_state")
    return isinstance(e, ast.Attribute) and e.attr in ("state", "simulation_state", "initial_state", "_state")


def state_writes(p, f):
    names = state_names(f)
    for n in ast.walk(f.node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = list(n.targets)
        elif isinstance(n, ast.AugAssign):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = list(n.targets)
        while tg:
            t = tg.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                tg.extend(t.elts)
            elif isinstance(t, ast.Subscript) and is_occ(t.value, names):
                yield n, "occupations"
            elif isinstance(t, ast.Attribute) and t.attr in ("occupations", "time", "step") and state_expr(t.value):
                yield n, t.attr
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and is_occ(n.func.value, names):
                yield n, "occupations"
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and state_expr(n.args[0]):
                yield n, "an attribute"


def accepted_only(c):
    """update() is the only caller of the state transition, and applies it once per accepted event."""
    SA = ST + ".apply_event"
    c.refine(KMC + ".update", """
def update(self, event, dt=0.0):
    self.simulation_state.apply_event(event, dt)
""", calls=(SA,), what=(), opaque={SA, "kmcpy.event.base.EventLib.get_dependent_events"})
    from props.p03 import reach_only
    ok = reach_only(c, {KMC + ".update"})
    for f in scan.all_functions(c.program):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "apply_event" \
                    and state_expr(n.func.value):
                c.expect(f.qual in ok, f"P05.caller:{f.qual}", "single writer", f"{f.module.path}:{n.lineno} ({f.qual})",
                         "the state transition is applied outside the accepted-event path")


OBLIGATIONS = [swap, construct, writers, accepted_only]
