from props.common import KMC, TR, run_spec

TITLE = "Sampling happens exactly when a schedule is due"
ST = "kmcpy.simulator.property.should_trigger"
CTP = "kmcpy.simulator.property.compute_transport_properties"


def due(c):
    c.refine(ST, """
def should_trigger(step, sim_time, interval, time_interval, last_trigger_time):
    by_step = interval is not None and step > 0 and step % interval == 0
    since = 0 if last_trigger_time is None else last_trigger_time
    by_time = time_interval is not None and sim_time - since >= time_interval
    return by_step or by_time
""", what=("ret", "raise", "state"))


def valid(c):
    c.refine("kmcpy.simulator.property.validate_schedule", """
def validate_schedule(interval, time_interval):
    if interval is not None and not isinstance(interval, int):
        raise TypeError("interval")
    if interval is not None and interval <= 0:
        raise ValueError("interval")
    if time_interval is not None and time_interval <= 0:
        raise ValueError("time")
""", what=("ret", "raise"))


SAMPLE = """
def sample_properties(self, step, sim_time):
    if should_trigger(step=step, sim_time=sim_time, interval=self._global_interval,
                      time_interval=self._global_time_interval, last_trigger_time=self._last_summary_trigger_time):
        self._last_summary_trigger_time = sim_time
    for spec in list(self._properties.values()):
        if not spec.enabled:
            continue
        i = self._global_interval if spec.interval is None else spec.interval
        t = self._global_time_interval if spec.time_interval is None else spec.time_interval
        if should_trigger(step=step, sim_time=sim_time, interval=i, time_interval=t, last_trigger_time=spec.last_trigger_time):
            spec.callback(self.state, step, sim_time)
            spec.last_trigger_step = step
            spec.last_trigger_time = sim_time
"""


def sampling(c):
    """Built-ins follow the global schedule; a callback's own interval replaces the global one of the same kind."""
    run_spec(c, calls=(TR + ".sample_properties",), order=[(KMC + ".update", TR + ".sample_properties")])
    c.refine(TR + ".sample_properties", SAMPLE, what=("state",), calls=(ST, ".callback"), stores=("last_trigger_time",),
             places={"_last_summary_trigger_time"}, opaque={ST, CTP, "kmcpy.simulator.property.append_record"})


def defaults(c):
    c.refine(TR + ".apply_property_plan", """
def apply_property_plan(self, property_plan, default_interval=None):
    interval = property_plan.global_interval
    time_interval = property_plan.global_time_interval
    if interval is None and time_interval is None and default_interval is not None:
        interval = default_interval
    self.set_global_property_frequency(interval=interval, time_interval=time_interval)
    for name, enabled in property_plan.builtin_enabled.items():
        self.set_property_enabled(name, enabled)
    for spec in property_plan.fresh_attachment_specs():
        self.attach(spec.callback, interval=spec.interval, time_interval=spec.time_interval, name=spec.name,
                    store=spec.store, max_records=spec.max_records, on_error=spec.on_error, enabled=spec.enabled)
""", what=(), calls=(TR + ".set_global_property_frequency", TR + ".set_property_enabled", TR + ".attach"),
             opaque={TR + ".set_global_property_frequency", TR + ".set_property_enabled", TR + ".attach"})
    c.refine(TR + ".set_global_property_frequency", """
def set_global_property_frequency(self, interval=None, time_interval=None):
    if interval is not None and not isinstance(interval, int):
        raise TypeError("interval")
    if interval is not None and interval <= 0:
        raise ValueError("interval")
    if time_interval is not None and time_interval <= 0:
        raise ValueError("time")
    self._global_interval = interval
    self._global_time_interval = time_interval
""", what=("raise", "state"))


OBLIGATIONS = [due, valid, sampling, defaults]
