from props.common import TR

TITLE = "Trajectory bookkeeping follows each ion exactly"


def start(c):
    c.refine(TR + ".__init__", """
def __init__(self, config, structure, initial_state=None, property_plan=None, default_property_interval=None,
             hop_state_lookup=None):
    if initial_state is None:
        raise ValueError("state")
    self.config = config
    self.structure = structure
    self.state = initial_state
    self.hop_state_lookup = hop_state_lookup
    occ = initial_state.occupations
    if hop_state_lookup is None:
        n = sum(1 for el in structure.species if el.symbol == config.mobile_ion_specie)
        mask = np.array(occ[0:n]) == 0
    else:
        codes = hop_state_lookup.mobile_state_by_site
        n = int(np.sum(codes != INVALID_STATE))
        mask = (codes != INVALID_STATE) & (np.array(occ[0:len(codes)]) == codes)
    self.n_mobile_ion_specie_site = n
    self.mobile_ion_specie_locations = np.where(mask)[0]
    self.n_mobile_ion_specie = len(self.mobile_ion_specie_locations)
    self.displacement = np.zeros((self.n_mobile_ion_specie, 3))
    self.hop_counter = np.zeros(self.n_mobile_ion_specie, dtype=np.int64)
    self.r0 = structure.frac_coords[self.mobile_ion_specie_locations] @ structure.lattice.matrix
    self.results = {k: [] for k in RESULT_FIELDS}
    self.current_pass = 0
""", what=("state",), places={"config", "structure", "state", "hop_state_lookup", "n_mobile_ion_specie_site",
                              "mobile_ion_specie_locations", "n_mobile_ion_specie", "displacement", "hop_counter", "r0",
                              "results", "current_pass"},
             opaque={TR + ".apply_property_plan"})


def hop(c):
    c.refine(TR + ".update", """
def update(self, event, dt):
    a, b = event.mobile_ion_indices
    d = event_direction(self.state.occupations, event)
    if d == 0:
        return
    src, dst = (a, b) if d == 1 else (b, a)
    rows = np.where(self.mobile_ion_specie_locations == src)[0]
    if len(rows) == 0:
        raise RuntimeError("inconsistent")
    k = int(rows[0])
    self.mobile_ion_specie_locations[k] = dst
    frac = d * (self.structure.frac_coords[b] - self.structure.frac_coords[a])
    frac = frac - np.round(frac).astype(int)
    self.displacement[k] = self.displacement[k] + np.array(self.structure.lattice.get_cartesian_coords(frac))
    self.hop_counter[k] = self.hop_counter[k] + 1
""", what=("ret", "raise", "state"))


def direction(c):
    c.refine("kmcpy.event.hop.event_direction", """
def event_direction(occupations, event):
    a, b = event.mobile_ion_indices
    codes = getattr(event, "hop_state_codes", DEFAULT_HOP_STATE_CODES)
    x, y = occupations[a], occupations[b]
    return 1 if (x == codes[0] and y == codes[1]) else (-1 if (x == codes[2] and y == codes[3]) else 0)
""", what=("ret", "raise", "state"))


def order(c):
    """Bookkeeping sees the state before the event, sampling the state after it."""
    from props.common import run_spec, KMC
    run_spec(c, calls=(TR + ".update",), order=[(TR + ".update", KMC + ".update"),
                                               (KMC + ".update", TR + ".sample_properties")], oid="P06.run")


def writers(c):
    import ast
    c.full_width([TR + ".__init__", TR + ".update"], real=("displacement", "r0"))
    from kstat import scan
    from props.p03 import stores, reach_only
    ok = reach_only(c, {TR + ".__init__", TR + ".update"})
    for f in scan.all_functions(c.program):
        for t in stores(f.node):
            if t.attr in ("mobile_ion_specie_locations", "hop_counter", "displacement") and (
                    f.cls is not None and f.cls.qual == TR or isinstance(t.value, ast.Name) and t.value.id == "tracker"):
                c.expect(f.qual in ok, f"P06.writer:{f.qual}", "single writer", f"{f.module.path}:{t.lineno} ({f.qual})",
                         f"{t.attr} is written outside construction and update()")


OBLIGATIONS = [start, hop, direction, order, writers]
