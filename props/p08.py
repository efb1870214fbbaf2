from props.common import KMC

TITLE = "An infeasible hop has rate zero"
HOP = "kmcpy.event.hop."
ED = HOP + "event_direction"
CP = "kmcpy.models.base.BaseModel.compute_probability"


def direction(c):
    """+1 / -1 exactly when the two end sites hold mobile ion and vacancy (in either order), else 0."""
    c.refine(ED, """
def event_direction(occupations, event):
    codes = getattr(event, "hop_state_codes", (0, 1, 1, 0))
    a = int(occupations[int(event.mobile_ion_indices[0])])
    b = int(occupations[int(event.mobile_ion_indices[1])])
    if a == codes[0] and b == codes[1]:
        return 1
    if a == codes[2] and b == codes[3]:
        return -1
    return 0
""", what=("ret", "raise", "state"))


def codes(c):
    """Codes are per site: ion on the start site, vacancy on the end site, and the reverse."""
    c.refine(HOP + "HopStateLookup.annotate_event", """
def annotate_event(self, event):
    i, j = event.mobile_ion_indices
    event.hop_state_codes = (int(self.mobile_state_by_site[int(i)]), int(self.vacancy_state_by_site[int(j)]),
                             int(self.vacancy_state_by_site[int(i)]), int(self.mobile_state_by_site[int(j)]))
""", what=("state",))
    c.refine(HOP + "HopStateLookup.annotate_event_lib", """
def annotate_event_lib(self, event_lib):
    for event in event_lib.events:
        self.annotate_event(event)
""", what=(), extra_vocab=("builtins.hasattr",), calls=(HOP + "HopStateLookup.annotate_event",), opaque={HOP + "HopStateLookup.annotate_event"})


def tables(c):
    """The code of a site is the position of the label in that site's own species list; absent labels never match."""
    c.refine(HOP + "HopStateLookup.from_active_site_order", """
def from_active_site_order(cls, active_site_order, mobile_ion_specie):
    mobile = np.full(active_site_order.active_site_count, -1, dtype=np.int64)
    vacancy = np.full(active_site_order.active_site_count, -1, dtype=np.int64)
    for a, p in enumerate(active_site_order.active_to_primitive):
        for k, label in enumerate(active_site_order.allowed_species_by_primitive_site[int(p)]):
            if str(label) == str(mobile_ion_specie):
                mobile[a] = int(k)
            if str(label) in {"X", "Vacancy", "vacancy", "Va", "VA"}:
                vacancy[a] = int(k)
    return cls(mobile_state_by_site=mobile, vacancy_state_by_site=vacancy)
""", what=("ret", "raise"), extra_vocab=(".startswith", ".endswith"))


FEASIBLE = """
    codes = getattr(event, "hop_state_codes", (0, 1, 1, 0))
    a = int(simulation_state.occupations[int(event.mobile_ion_indices[0])])
    b = int(simulation_state.occupations[int(event.mobile_ion_indices[1])])
    feasible = (a == codes[0] and b == codes[1]) or (a == codes[2] and b == codes[3])
"""


def zero(c):
    """Every rate model: where neither direction is feasible in the current occupation, the rate is 0."""
    n = 0
    for cls in c.program.subclasses(c.program.get_class("kmcpy.models.base.BaseModel")):
        f = cls.methods.get("compute_probability")
        if f is None or cls.qual.endswith(".BaseModel"):
            continue
        n += 1
        c.lemma(f.qual if f.qual.startswith("kmcpy") else f"{cls.qual}.compute_probability", """
def law(self, event, runtime_config, simulation_state):""" + FEASIBLE + """
    if feasible:
        return 0.0
    return self.compute_probability(event=event, runtime_config=runtime_config, simulation_state=simulation_state)
""", """
def law(self, event, runtime_config, simulation_state):
    return 0.0
""", oid=f"P08.zero {cls.name}", self_type=cls.qual, opaque=OPAQUE)
    c.expect(n > 0, "P08.zero:models", "coverage", "", "no rate model found")


OPAQUE = {"kmcpy.models.local_barrier_model.LocalBarrierModel.compute",
          "kmcpy.models.local_barrier_model.LocalBarrierModel._validate_probability_mode",
          "kmcpy.models.composite_lce_model.CompositeLCEModel._compute_site_energy_difference"}


def wiring(c):
    """The engine annotates its whole library, from its own site order, before the first rate is computed."""
    c.refine(KMC + ".__init__", """
def __init__(self, structure, model, event_lib, config, simulation_state=None, hop_state_lookup=None,
             active_site_order=None, **kwargs):
    if hop_state_lookup is not None:
        hop_state_lookup.annotate_event_lib(event_lib)
    if simulation_state is None:
        raise ValueError("state")
""", what=(), calls=(HOP + "HopStateLookup.annotate_event_lib",), opaque={CP, HOP + "HopStateLookup.annotate_event_lib",
             KMC + "._configure_properties_from_runtime_config", KMC + "._initialize_model_state"},
             oid="P08.wiring", order=((HOP + "HopStateLookup.annotate_event_lib", CP),))


OBLIGATIONS = [direction, codes, tables, zero, wiring]
