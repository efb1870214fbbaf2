from props.common import KMC

TITLE = "Event rates always describe the current state"

CP = "kmcpy.models.base.BaseModel.compute_probability"
MA = "kmcpy.models.base.BaseModel.apply_event"
MI = "kmcpy.models.base.BaseModel.initialize_state"
SA = "kmcpy.simulator.state.State.apply_event"
GD = "kmcpy.event.base.EventLib.get_dependent_events"
AN = "kmcpy.event.hop.HopStateLookup.annotate_event_lib"
CF = KMC + "._configure_properties_from_runtime_config"


def initial(c):
    """Construction computes the rate of every event from the initial state, then the cumulative sums."""
    opaque = {AN, CF, "kmcpy.event.base.EventLib.get_dependency_statistics"}
    c.refine(KMC + ".__init__", """
def __init__(self, structure, model, event_lib, config, simulation_state=None, hop_state_lookup=None,
             active_site_order=None, **kwargs):
    if simulation_state is None:
        raise ValueError("state")
    self.config = config
    self.simulation_state = simulation_state
    self.structure = structure
    self.model = model
    self.event_lib = event_lib
    self.hop_state_lookup = hop_state_lookup
    self.active_site_order = active_site_order
    if hop_state_lookup is not None:
        hop_state_lookup.annotate_event_lib(event_lib)
    rates = [model.compute_probability(event=e, runtime_config=config.runtime_config, simulation_state=simulation_state)
             for e in event_lib.events]
    self.prob_list = np.array(rates)
    self.prob_cum_list = np.cumsum(self.prob_list)
""", what=("state",), places={"config", "simulation_state", "structure", "model", "event_lib", "hop_state_lookup",
                              "active_site_order", "prob_list", "prob_cum_list"},
             calls=(CP, AN), opaque=opaque, order=[(AN, MI), (AN, CP), (MI, CP)])
    s = c.summary(KMC + ".__init__", opaque=opaque)
    sp = c.spec_summary(c.func(KMC + ".__init__"), """
def __init__(self, structure, model, event_lib, config, simulation_state=None, hop_state_lookup=None,
             active_site_order=None, **kwargs):
    if simulation_state is None:
        raise ValueError("state")
""", opaque=opaque)
    c.compare_terms("P03.init:raise", c.func(KMC + ".__init__").where, s, s.raise_cond(), sp, sp.raise_cond())
    # model-side state is initialised exactly once, from the state that the run will use
    from kstat.harness import call_args, callee_name
    calls = [e for e in s.effects if e.kind == "call" and callee_name(e.target) == MI]
    loose = [e for e in s.effects if e.kind == "call" and callee_name(e.target) in (".initialize_state", "apply")]
    if not calls and (loose or not s.effects):
        c.unknown("P03.init:initialize_state once", "call", c.func(KMC + ".__init__").where, "the call was not resolved")
    elif c.expect(len(calls) == 1, "P03.init:initialize_state once", "call", c.func(KMC + ".__init__").where,
                f"model state initialised {len(calls)} times"):
        kw = dict(calls[0].target.a[2])
        want = {"simulation_state", "event_lib", "structure", "config"}
        got = {k for k, v in kw.items() if k in want and v.op == "p" and v.a[0] == k}
        c.expect(got == want, "P03.init:initialize_state arguments", "call", calls[0].where,
                 f"initialize_state does not receive {sorted(want - got)} of the run")


def after_event(c):
    """After every accepted event: state, model state, every dependent rate and the cumulative sums, in that order."""
    c.refine(KMC + ".update", """
def update(self, event, dt=0.0):
    self.simulation_state.apply_event(event, dt)
    self.model.apply_event(event=event, simulation_state=self.simulation_state)
    for j in self.event_lib.get_dependent_events(self.event_lib.events.index(event)):
        self.prob_list[j] = self.model.compute_probability(
            event=self.event_lib.events[j], runtime_config=self.config.runtime_config,
            simulation_state=self.simulation_state)
    self.prob_cum_list = np.cumsum(self.prob_list)
""", what=("ret", "raise", "state"), calls=(SA, MA, GD, CP), stores=("prob_list",), opaque={SA, GD},
             order=[(SA, MA), (MA, CP), (SA, CP), (CP, "numpy.cumsum"), ("=prob_list", "numpy.cumsum")])


def consumers(c):
    """Only construction and update() write the rate tables."""
    import ast
    from kstat import scan
    n = 0
    ok_in = reach_only(c, {KMC + ".__init__", KMC + ".update"})
    for f in scan.all_functions(c.program):
        for t in stores(f.node):
            if t.attr in ("prob_list", "prob_cum_list"):
                n += 1
                c.expect(f.qual in ok_in, f"P03.writer:{f.qual}", "single writer", f"{f.module.path}:{t.lineno} ({f.qual})",
                         f"{t.attr} is written outside construction and update()")
    c.notes.append(f"{n} writes of the rate tables")
    c.full_width([KMC + ".__init__", KMC + ".update"], real=("prob_list", "prob_cum_list"))


def stores(node):
    import ast
    for n in ast.walk(node):
        tg = []
        if isinstance(n, ast.Assign):
            tg = list(n.targets)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg = [n.target]
        elif isinstance(n, ast.Delete):
            tg = list(n.targets)
        while tg:
            t = tg.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                tg.extend(t.elts)
                continue
            while isinstance(t, (ast.Subscript, ast.Starred)):
                t = t.value
            if isinstance(t, ast.Attribute):
                yield t


def reach_only(c, roots):
    """Functions whose only callers (transitively) are the given ones."""
    from kstat import scan
    idx = {}
    for g in scan.all_functions(c.program):
        if g.cls is not None:
            idx.setdefault(g.name, []).append(g)
    callers = {}
    for h in scan.all_functions(c.program):
        for t, _ in scan.call_edges(c.program, h, idx):
            callers.setdefault(t.qual, set()).add(h.qual)
    ok = set(roots)
    changed = True
    while changed:
        changed = False
        for f in scan.all_functions(c.program):
            if f.qual not in ok and callers.get(f.qual) and callers[f.qual] <= ok | {f.qual}:
                ok.add(f.qual)
                changed = True
    return ok


OBLIGATIONS = [initial, after_event, consumers]
