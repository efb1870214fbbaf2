TITLE = "Rates follow the Arrhenius law of the current barrier"
COMP = "kmcpy.models.composite_lce_model.CompositeLCEModel"
LB = "kmcpy.models.local_barrier_model.LocalBarrierModel"
LCE = "kmcpy.models.local_cluster_expansion.LocalClusterExpansion"

DIRECTION = """
    codes = getattr(event, "hop_state_codes", (0, 1, 1, 0))
    a = int(simulation_state.occupations[int(event.mobile_ion_indices[0])])
    b = int(simulation_state.occupations[int(event.mobile_ion_indices[1])])
    if a == codes[0] and b == codes[1]:
        direction = 1
    elif a == codes[2] and b == codes[3]:
        direction = -1
    else:
        return 0.0
"""


def composite(c):
    """v exp(-(E_KRA + dE/2)/(kB T)); dE is after-minus-before: signed by direction for a site LCE, as given otherwise."""
    c.refine(COMP + ".compute_probability", """
def compute_probability(self, event, runtime_config, simulation_state):""" + DIRECTION + """
    if self.site_model is None:
        de = 0.0
    else:
        de = self.site_model.compute(simulation_state=simulation_state, event=event)
        if isinstance(self.site_model, LocalClusterExpansion):
            de = direction * de
    e = self.kra_model.compute(simulation_state=simulation_state, event=event) + de / 2
    return runtime_config.attempt_frequency * np.exp(-e / (8.617333262145e-2 * runtime_config.temperature))
""", what=("ret",), opaque={LCE + ".compute"})


def barrier(c):
    c.refine(LB + ".compute_probability", """
def compute_probability(self, event, runtime_config, simulation_state):
    e = self.compute(simulation_state=simulation_state, event=event, property_name=self.probability_property)
""" + DIRECTION + """
    return runtime_config.attempt_frequency * np.exp(-e / (8.617333262145e-2 * runtime_config.temperature))
""", what=("ret",), opaque={LB + ".compute", LB + "._validate_probability_mode"})
    c.refine(LB + ".compute_probability", """
def compute_probability(self, event, runtime_config, simulation_state):
    if self.probability_mode != "barrier_arrhenius":
        raise ValueError("mode")
""", what=("raise",), opaque={LB + ".compute"}, oid="P09.barrier mode")


def roles(c):
    """The two roles keep the model they were given."""
    c.refine(COMP + ".__init__", """
def __init__(self, site_model=None, kra_model=None, kra_fit_metadata=None, site_fit_metadata=None, *args, **kwargs):
    if kra_model is not None and not isinstance(kra_model, LocalClusterExpansion):
        raise TypeError("kra")
    if site_model is not None and not callable(getattr(site_model, "compute", None)):
        raise TypeError("site")
    self.site_model = site_model
    self.kra_model = kra_model
""", what=("state", "raise"), places={"site_model", "kra_model"})


OBLIGATIONS = [composite, barrier, roles]
