from props.common import TR

TITLE = "Callback failures stop the run unless handled; records keep the newest"
ST = "kmcpy.simulator.property.should_trigger"
CTP = "kmcpy.simulator.property.compute_transport_properties"
AR = "kmcpy.simulator.property.append_record"


def records(c):
    c.refine(AR, """
def append_record(records, spec, step, sim_time, value):
    records.append(PropertyRecord(name=spec.name, step=int(step), time=float(sim_time), value=value))
    if spec.max_records is not None and len(records) > spec.max_records:
        del records[0:len(records) - spec.max_records]
""", what=("ret", "raise", "state"))
    c.refine("kmcpy.simulator.property.validate_max_records", """
def validate_max_records(max_records):
    if max_records is not None and not isinstance(max_records, int):
        raise TypeError("max")
    if max_records is not None and max_records <= 0:
        raise ValueError("max")
""", what=("ret", "raise"))


POLICY = """
def sample_properties(self, step, sim_time):
    for spec in list(self._properties.values()):
        if not spec.enabled:
            continue
        i = self._global_interval if spec.interval is None else spec.interval
        t = self._global_time_interval if spec.time_interval is None else spec.time_interval
        if not should_trigger(step=step, sim_time=sim_time, interval=i, time_interval=t,
                              last_trigger_time=spec.last_trigger_time):
            continue
        try:
            value = spec.callback(self.state, step, sim_time)
        except Exception as exc:
            if spec.on_error is None:
                raise CallbackExecutionError("no handler") from exc
            try:
                go_on = bool(spec.on_error(exc, self.state, step, sim_time))
            except Exception as inner:
                raise CallbackExecutionError("handler failed") from inner
            if not go_on:
                raise CallbackExecutionError("stop") from exc
            spec.last_trigger_step = step
            spec.last_trigger_time = sim_time
            continue
        if spec.store and spec.name in self._property_records:
            append_record(records=self._property_records[spec.name], spec=spec, step=step, sim_time=sim_time, value=value)
        spec.last_trigger_step = step
        spec.last_trigger_time = sim_time
"""


def policy(c):
    c.refine(TR + ".sample_properties", POLICY, what=("raise",), calls=(".callback", ".on_error", AR),
             stores=("last_trigger_time", "last_trigger_step"), opaque={ST, CTP, AR}, exc=True)


def retrieval(c):
    c.handed_out(TR + ".get_property_records", "_property_records", "P13.records handed out are copies", inner=True)
    c.refine(TR + ".get_property_records", """
def get_property_records(self, name=None):
    if name is not None:
        if name not in self._property_records:
            raise ValueError("none")
        return [r.__dict__.copy() for r in self._property_records[name]]
    return {k: [r.__dict__.copy() for r in rs] for k, rs in self._property_records.items()}
""", what=("ret", "raise", "state"))


OBLIGATIONS = [records, policy, retrieval]
