from props.common import KMC, TR

TITLE = "Property requests apply to the current and later runs, each run starting fresh"
M = "kmcpy.simulator.property."
PP = M + "PropertyPlan"
MK, SF = M + "make_property_spec", M + "set_property_enabled_flag"
PAR = ("func, interval=None, time_interval=None, name=None, store=True, max_records=None, on_error=None, enabled=True")
KW = "interval=interval, time_interval=time_interval, name={n}, store=store, max_records=max_records, on_error=on_error, enabled=enabled"
ENS = """
    if not hasattr(self, "property_plan"):
        self.property_plan = PropertyPlan()
    if not hasattr(self, "_active_tracker"):
        self._active_tracker = None
"""


def specs(c):
    c.refine(MK, """
def make_property_spec(func, *, interval=None, time_interval=None, name=None, store=True, max_records=None, on_error=None,
                       enabled=True, existing_names=None):
    if not callable(func):
        raise TypeError("callable")
    validate_schedule(interval=interval, time_interval=time_interval)
    validate_max_records(max_records=max_records)
    n = name or getattr(func, "__name__", "attached_property")
    if n in ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor"):
        raise ValueError("reserved")
    if existing_names is not None and n in existing_names:
        raise ValueError("twice")
    return PropertySpec(name=n, callback=func, interval=interval, time_interval=time_interval, store=store,
                        max_records=max_records, enabled=bool(enabled), on_error=on_error)
""", what=("ret", "raise"))
    c.refine(SF, """
def set_property_enabled_flag(*, builtin_enabled, attached_properties, name, enabled):
    if name in builtin_enabled:
        builtin_enabled[name] = bool(enabled)
    elif name not in attached_properties:
        raise ValueError("unknown")
    else:
        attached_properties[name].enabled = bool(enabled)
""", what=("raise", "state"))
    c.refine(M + "describe_property_calculations", """
def describe_property_calculations(*, builtin_enabled, attached_properties):
    F = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
    return {"built_in_enabled": [n for n in BUILTIN_PROPERTY_FIELDS if builtin_enabled.get(n, True)],
            "built_in_disabled": [n for n in BUILTIN_PROPERTY_FIELDS if not builtin_enabled.get(n, True)],
            "attached_enabled": [n for n, s in attached_properties.items() if s.enabled],
            "attached_disabled": [n for n, s in attached_properties.items() if not s.enabled]}
""", what=("ret",))


def plan(c):
    c.refine(PP + ".__init__", """
def __init__(self, interval=None, time_interval=None, builtin_enabled=None):
    validate_schedule(interval=interval, time_interval=time_interval)
    self._global_interval = interval
    self._global_time_interval = time_interval
    self._enabled_builtin_properties = {"msd": True, "jump_diffusivity": True, "tracer_diffusivity": True,
                                        "conductivity": True, "havens_ratio": True, "correlation_factor": True}
    self._attached_properties = {}
    if builtin_enabled:
        for name, enabled in builtin_enabled.items():
            self.set_property_enabled(name, bool(enabled))
""", what=("raise", "state"), calls=(PP + ".set_property_enabled",), opaque={PP + ".set_property_enabled"})
    c.refine(PP + ".global_interval", "def global_interval(self):\n    return self._global_interval\n", what=("ret",))
    c.refine(PP + ".global_time_interval", "def global_time_interval(self):\n    return self._global_time_interval\n", what=("ret",))
    c.handed_out(PP + ".builtin_enabled", "_enabled_builtin_properties", "P14.flags handed out are a copy")
    c.refine(PP + ".builtin_enabled", "def builtin_enabled(self):\n    return self._enabled_builtin_properties.copy()\n", what=("ret",))
    c.refine(PP + ".set_frequency", """
def set_frequency(self, interval=None, time_interval=None):
    validate_schedule(interval=interval, time_interval=time_interval)
    self._global_interval = interval
    self._global_time_interval = time_interval
""", what=("raise", "state"))
    c.refine(PP + ".attach", f"""
def attach(self, {PAR}):
    spec = make_property_spec(func, {KW.format(n='name')}, existing_names=set(self._attached_properties))
    self._attached_properties[spec.name] = spec
    return spec.name
""", what=("ret", "raise", "state"), opaque={MK})
    c.refine(PP + ".detach", """
def detach(self, name):
    if name not in self._attached_properties:
        raise ValueError("none")
    del self._attached_properties[name]
""", what=("raise", "state"))
    c.refine(PP + ".clear_attachments", """
def clear_attachments(self):
    self._attached_properties.clear()
""", what=("raise", "state"))
    c.refine(PP + ".list_attachments", "def list_attachments(self):\n    return list(self._attached_properties.keys())\n", what=("ret",))
    c.refine(PP + ".set_property_enabled", """
def set_property_enabled(self, name, enabled):
    set_property_enabled_flag(builtin_enabled=self._enabled_builtin_properties, attached_properties=self._attached_properties,
                              name=name, enabled=enabled)
""", what=("raise",), calls=(SF,), opaque={SF})
    c.refine(PP + ".fresh_attachment_specs", """
def fresh_attachment_specs(self):
    return [replace(s, last_trigger_step=0, last_trigger_time=None) for s in self._attached_properties.values()]
""", what=("ret", "state"))


def tracker(c):
    c.refine(TR + ".attach", f"""
def attach(self, {PAR}):
    spec = make_property_spec(func, {KW.format(n='name')}, existing_names=set(self._properties))
    self._properties[spec.name] = spec
    self._property_records[spec.name] = []
    return spec.name
""", what=("ret", "raise", "state"), opaque={MK})
    c.refine(TR + ".attach_spec", """
def attach_spec(self, spec):
    return self.attach(spec.callback, interval=spec.interval, time_interval=spec.time_interval, name=spec.name, store=spec.store,
                       max_records=spec.max_records, on_error=spec.on_error, enabled=spec.enabled)
""", what=("ret",), opaque={TR + ".attach"})
    c.refine(TR + ".detach", """
def detach(self, name):
    if name not in self._properties:
        raise ValueError("none")
    del self._properties[name]
    self._property_records.pop(name, None)
""", what=("raise", "state"))
    c.refine(TR + ".clear_attachments", """
def clear_attachments(self):
    self._properties.clear()
    self._property_records.clear()
""", what=("raise", "state"))
    c.refine(TR + ".list_attachments", "def list_attachments(self):\n    return list(self._properties)\n", what=("ret",))
    c.refine(TR + ".set_property_enabled", """
def set_property_enabled(self, name, enabled):
    set_property_enabled_flag(builtin_enabled=self._enabled_builtin_properties, attached_properties=self._properties,
                              name=name, enabled=enabled)
""", what=("raise",), calls=(SF,), opaque={SF})
    c.refine(TR + ".apply_property_plan", """
def apply_property_plan(self, property_plan, default_interval=None):
    interval = property_plan.global_interval
    time_interval = property_plan.global_time_interval
    if interval is None and time_interval is None and default_interval is not None:
        interval = default_interval
    self.set_global_property_frequency(interval=interval, time_interval=time_interval)
    for name, enabled in property_plan.builtin_enabled.items():
        self.set_property_enabled(name, enabled)
    for spec in property_plan.fresh_attachment_specs():
        self.attach(spec.callback, interval=spec.interval, time_interval=spec.time_interval, name=spec.name,
                    store=spec.store, max_records=spec.max_records, on_error=spec.on_error, enabled=spec.enabled)
""", what=(), calls=(TR + ".set_global_property_frequency", TR + ".set_property_enabled", TR + ".attach"),
             opaque={TR + ".set_global_property_frequency", TR + ".set_property_enabled", TR + ".attach"})
    INIT = TR + "._initialize_mobile_ion_tracking"
    c.refine(TR + ".__init__", """
def __init__(self, config, structure, initial_state, property_plan=None, default_property_interval=None, hop_state_lookup=None):
    self._properties = {}
    self._property_records = {}
    self._last_summary_trigger_time = None
    if property_plan is not None:
        self.apply_property_plan(property_plan, default_interval=default_property_interval)
""", what=("state",), places={"_properties", "_property_records", "_last_summary_trigger_time"},
             calls=(TR + ".apply_property_plan",), opaque={TR + ".apply_property_plan", INIT})


def live(c):
    """A request on the simulation goes to the plan and, while a run is active, to its tracker."""
    OP = {f"{PP}.{m}" for m in ("attach", "detach", "clear_attachments", "set_frequency", "set_property_enabled")} | \
         {f"{TR}.{m}" for m in ("attach", "detach", "clear_attachments", "set_global_property_frequency", "set_property_enabled")} | \
         {KMC + "._ensure_property_state"}

    def both(m, par, plan_call, track_call, ret="None"):
        t = track_call.split("(")[0]
        p = plan_call.split("(")[0]
        c.refine(f"{KMC}.{m}", f"""
def {m}(self, {par}):
    self._ensure_property_state()
    r = self.property_plan.{plan_call}
    if self._active_tracker is not None:
        self._active_tracker.{track_call}
    return {ret}
""", what=("ret", "raise"), calls=(f"{PP}.{p}", f"{TR}.{t}"), opaque=OP)
    both("set_property_frequency", "interval=None, time_interval=None", "set_frequency(interval=interval, time_interval=time_interval)",
         "set_global_property_frequency(interval=interval, time_interval=time_interval)")
    both("attach", PAR, f"attach(func, {KW.format(n='name')})", f"attach(func, {KW.format(n='r')})", "r")
    both("detach", "name", "detach(name)", "detach(name)")
    both("clear_attachments", "", "clear_attachments()", "clear_attachments()")
    both("set_property_enabled", "name, enabled", "set_property_enabled(name, bool(enabled))", "set_property_enabled(name, bool(enabled))")
    c.refine(KMC + "._ensure_property_state", "def _ensure_property_state(self):" + ENS, what=("state",))
    c.refine(KMC + ".list_attachments", """
def list_attachments(self):
    self._ensure_property_state()
    return list(self.property_plan._attached_properties)
""", what=("ret",), opaque=OP)
    c.refine(KMC + "._configure_tracker_properties", """
def _configure_tracker_properties(self, tracker, pass_length):
    self._ensure_property_state()
    tracker.apply_property_plan(self.property_plan, default_interval=max(pass_length, 1))
""", what=(), calls=(TR + ".apply_property_plan",), opaque=OP | {TR + ".apply_property_plan"})


def configured(c):
    RC = KMC + "._resolve_callback_reference"
    OP = {KMC + ".set_property_frequency", KMC + ".set_property_enabled", KMC + ".attach", RC, KMC + "._ensure_property_state"}
    c.refine(KMC + "._configure_properties_from_runtime_config", """
def _configure_properties_from_runtime_config(self, runtime_config):
    self._ensure_property_state()
    i = getattr(runtime_config, "property_sampling_interval", None)
    t = getattr(runtime_config, "property_sampling_time_interval", None)
    if i is not None or t is not None:
        self.set_property_frequency(interval=i, time_interval=t)
    for name, enabled in getattr(runtime_config, "builtin_property_enabled", {}).items():
        self.set_property_enabled(name, bool(enabled))
    for s in getattr(runtime_config, "property_callbacks", []):
        self.attach(self._resolve_callback_reference(s["callable"]), interval=s.get("interval"), time_interval=s.get("time_interval"),
                    name=s.get("name"), store=s.get("store", True), max_records=s.get("max_records"), enabled=s.get("enabled", True))
""", what=(), calls=(KMC + ".set_property_frequency", KMC + ".set_property_enabled", KMC + ".attach"), opaque=OP)
    c.refine(KMC + ".__init__", """
def __init__(self, structure, model, event_lib, config, simulation_state=None, hop_state_lookup=None, active_site_order=None, **kwargs):
    self._configure_properties_from_runtime_config(config.runtime_config)
""", what=(), calls=(KMC + "._configure_properties_from_runtime_config",),
             opaque=OP | {KMC + "._configure_properties_from_runtime_config"})
    from props.common import RUN_OPAQUE, run_spec
    run_spec(c, what=("state",), places={"_active_tracker"}, calls=(TR,))


def refused(c):
    from props import p16
    p16.schedule(c)


OBLIGATIONS = [refused, specs, plan, tracker, live, configured]
