"""Reference descriptions shared by several properties."""

KMC = "kmcpy.simulator.kmc.KMC"
TR = "kmcpy.simulator.tracker.Tracker"

RUN_OPAQUE = {KMC + ".propose", KMC + ".update", TR + ".update", TR + ".sample_properties",
              TR + ".update_current_pass", TR + ".show_current_info", TR + ".write_results",
              TR + ".return_current_info"}

RUN = """
def run(self, label=None):
    config = self.config
    name = config.name if label is None else label
    self.rng = np.random.default_rng() if config.random_seed is None else np.random.default_rng(seed=config.random_seed)
    n = 0
    for el in self.structure.species:
        if el.symbol == config.mobile_ion_specie:
            n += 1
    for p in range(config.equilibration_passes):
        for q in range(n):
            event, dt = self.propose(self.event_lib.events)
            self.update(event, dt=0.0)
    if not hasattr(self, "property_plan"):
        self.property_plan = PropertyPlan()
    tracker = Tracker(config=config, structure=self.structure, initial_state=self.simulation_state,
                      property_plan=self.property_plan, default_property_interval=max(n, 1),
                      hop_state_lookup=getattr(self, "hop_state_lookup", None))
    self._active_tracker = tracker
    for p in range(config.kmc_passes):
        for q in range(n):
            event, dt = self.propose(self.event_lib.events)
            tracker.update(event, dt)
            self.update(event, dt=dt)
            tracker.sample_properties(step=self.simulation_state.step, sim_time=self.simulation_state.time)
        tracker.update_current_pass(p)
        tracker.show_current_info()
    tracker.write_results(label=name)
    return tracker
"""


def run_spec(c, what=(), calls=(), order=(), places=None, oid=None):
    c.refine(KMC + ".run", RUN, what=what, calls=calls, order=order, places=places, oid=oid, opaque=RUN_OPAQUE)
