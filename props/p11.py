from kstat.harness import AnalysisError
from props.common import TR

TITLE = "Transport numbers follow their definitions and units"

SPEC = """
def compute_transport_properties(displacement, hop_counter, *, sim_time, dimension, n_mobile_ion_specie,
                                 elementary_hop_distance, volume, mobile_ion_charge, temperature, enabled=None):
    nan = float("nan")
    sq = np.linalg.norm(displacement, axis=1) ** 2
    msd = float(np.mean(sq))
    dj = nan
    dt = nan
    if sim_time > 0 and n_mobile_ion_specie > 0:
        dj = (np.linalg.norm(np.sum(displacement, axis=0)) ** 2 / (2 * dimension * sim_time * n_mobile_ion_specie)
              * 1e-16)
        dt = msd / (2 * dimension * sim_time) * 1e-16
    sigma = nan
    if np.isfinite(dj):
        sigma = dj * (n_mobile_ion_specie / volume) * mobile_ion_charge ** 2 / (8.617333262145e-2 * temperature) * 1.602e11
    hr = nan
    if np.isfinite(dj) and np.isfinite(dt) and dj != 0:
        hr = dt / dj
    f = nan
    if hop_counter.size > 0:
        safe = np.where(hop_counter == 0, 1, hop_counter)
        f = float(np.mean(np.where(hop_counter == 0, 0.0, sq / (safe * elementary_hop_distance ** 2))))
    on = {}
    return {
        "msd": msd if enabled is None or enabled.get("msd", True) else nan,
        "jump_diffusivity": dj if enabled is None or enabled.get("jump_diffusivity", True) else nan,
        "tracer_diffusivity": dt if enabled is None or enabled.get("tracer_diffusivity", True) else nan,
        "conductivity": sigma if enabled is None or enabled.get("conductivity", True) else nan,
        "havens_ratio": hr if enabled is None or enabled.get("havens_ratio", True) else nan,
        "correlation_factor": f if enabled is None or enabled.get("correlation_factor", True) else nan,
    }
"""
METRICS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
CTP = "kmcpy.simulator.property.compute_transport_properties"


def formulas(c):
    c.refine(CTP, SPEC, what=("ret", "raise", "state"))
    switches(c)


def switches(c):
    """Switching one metric off changes no other metric."""
    from kstat.norm import Norm
    from kstat.terms import cval
    try:
        f = c.func(CTP)
    except AnalysisError as e:
        return c.anchor_missing("P11.switches", CTP, e)
    for own in METRICS:
        for other in METRICS:
            if own == other:
                continue
            s = c.spec_summary(f, f"""
def law(displacement, hop_counter, *, sim_time, dimension, n_mobile_ion_specie, elementary_hop_distance, volume, mobile_ion_charge,
        temperature, enabled=None):
    return compute_transport_properties(
        displacement, hop_counter, sim_time=sim_time, dimension=dimension, n_mobile_ion_specie=n_mobile_ion_specie,
        elementary_hop_distance=elementary_hop_distance, volume=volume, mobile_ion_charge=mobile_ion_charge, temperature=temperature,
        enabled={{x: x != "{other}" for x in {METRICS!r}}})["{own}"]
""")
            t = Norm([s.interp]).nf(s.ret)
            if t.op == "c" and str(cval(t)) == "nan":
                c.bad(f"P11.switches:{own}", "switch", f.where, f"{own} is not reported when {other} is switched off")
                break
        else:
            c.ok(f"P11.switches:{own}", "switch", f.where)


def wiring(c):
    """Each due sample feeds the formulas with the tracker's own trajectory and the run's parameters."""
    ST = "kmcpy.simulator.property.should_trigger"
    c.refine(TR + ".sample_properties", """
def sample_properties(self, step, sim_time):
    if should_trigger(step=step, sim_time=sim_time, interval=self._global_interval,
                      time_interval=self._global_time_interval, last_trigger_time=self._last_summary_trigger_time):
        compute_transport_properties(
            self.displacement, self.hop_counter, sim_time=self.state.time - self._start_time, dimension=self.config.dimension,
            n_mobile_ion_specie=self.n_mobile_ion_specie, elementary_hop_distance=self.config.elementary_hop_distance,
            volume=self.structure.volume, mobile_ion_charge=self.config.mobile_ion_charge,
            temperature=self.config.temperature, enabled=self._enabled_builtin_properties)
""", what=(), calls=(CTP,), opaque={CTP, ST})


def rows(c):
    """A sample appends its time and each metric to that metric's own column."""
    ST = "kmcpy.simulator.property.should_trigger"
    c.refine(TR + ".sample_properties", """
def sample_properties(self, step, sim_time):
    if should_trigger(step=step, sim_time=sim_time, interval=self._global_interval,
                      time_interval=self._global_time_interval, last_trigger_time=self._last_summary_trigger_time):
        m = compute_transport_properties(
            self.displacement, self.hop_counter, sim_time=self.state.time - self._start_time, dimension=self.config.dimension,
            n_mobile_ion_specie=self.n_mobile_ion_specie, elementary_hop_distance=self.config.elementary_hop_distance,
            volume=self.structure.volume, mobile_ion_charge=self.config.mobile_ion_charge,
            temperature=self.config.temperature, enabled=self._enabled_builtin_properties)
        self.results["time"].append(sim_time)
        for k in ("jump_diffusivity", "tracer_diffusivity", "conductivity", "correlation_factor", "havens_ratio", "msd"):
            self.results[k].append(m[k])
""", what=("state",), places={"results"}, opaque={CTP, ST})


def elapsed(c):
    """Time is counted from the moment the displacements are."""
    c.refine(TR + ".__init__", """
def __init__(self, config, structure, initial_state, property_plan=None, default_property_interval=None, hop_state_lookup=None):
    if initial_state is None:
        raise ValueError("state")
    self._start_time = initial_state.time
    if property_plan is not None:
        self.apply_property_plan(property_plan, default_interval=default_property_interval)
""", what=("state",), places={"_start_time"}, opaque={TR + ".apply_property_plan", TR + "._initialize_mobile_ion_tracking"})


def latest(c):
    c.refine(TR + ".return_current_info", """
def return_current_info(self):
    if not self.results["time"]:
        raise ValueError("none")
    return tuple(self.results[k][-1] for k in ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity",
                                               "havens_ratio", "correlation_factor"))
""", what=("ret", "raise", "state"))


def units(c):
    c.refine(TR + ".result_units", """
def result_units(self):
    return {"time": "s", "msd": "Angstrom^2", "jump_diffusivity": "cm^2/s", "tracer_diffusivity": "cm^2/s",
            "conductivity": "mS/cm", "havens_ratio": "dimensionless", "correlation_factor": "dimensionless"}
""", what=("ret",))


def width(c):
    """Numbers are kept at full width."""
    c.full_width(["kmcpy.simulator.property.compute_transport_properties", TR + "._compute_transport_summary", TR + "._sample_transport_summary"])


OBLIGATIONS = [formulas, wiring, elapsed, rows, latest, units, width]
