from kstat import consts

TITLE = "Bad configurations are refused, never ignored"
M = "kmcpy.simulator.config."
CFG, SC, RC = M + "Configuration", M + "SystemConfig", M + "RuntimeConfig"


def names(c):
    """The routing tables name exactly the fields of the two parts, each field in one of them."""
    prog = c.program
    sysf = {n for n, _, _ in prog.get_class(SC).fields}
    runf = {n for n, _, _ in prog.get_class(RC).fields}
    where = prog.get_class(CFG).module.path
    tables = {}
    for tab, want in (("SYSTEM_FIELD_NAMES", sysf), ("RUNTIME_FIELD_NAMES", runf)):
        got = consts.string_set(prog, M.rstrip("."), tab)
        tables[tab] = got
        if got is None:
            c.unknown(f"P16.names {tab}", "table", where, "table is not a literal set of names")
            continue
        c.expect(got == want, f"P16.names {tab}", "table", where,
                 f"{tab} differs from the declared fields: {sorted(got ^ want)}")
    a, b = tables["SYSTEM_FIELD_NAMES"], tables["RUNTIME_FIELD_NAMES"]
    if a is not None and b is not None:
        c.expect(not a & b, "P16.names disjoint", "table", where, f"fields routed twice: {sorted(a & b)}")


def routing(c):
    """Every keyword goes to the part that declares it; an unknown one is an error."""
    c.refine(CFG + ".__init__", """
def __init__(self, system_config=None, runtime_config=None, **kwargs):
    if system_config is None and runtime_config is None and not kwargs:
        raise ValueError("nothing")
    s, r = {}, {}
    for key, value in kwargs.items():
        if key in SYSTEM_FIELD_NAMES:
            s[key] = value
        elif key in RUNTIME_FIELD_NAMES:
            r[key] = value
        else:
            raise ValueError("unknown")
    from dataclasses import replace
    if system_config is None:
        system_config = SystemConfig(**s)
    elif s:
        system_config = replace(system_config, **s)
    if runtime_config is None:
        runtime_config = RuntimeConfig(**r)
    elif r:
        runtime_config = replace(runtime_config, **r)
    object.__setattr__(self, "system_config", system_config)
    object.__setattr__(self, "runtime_config", runtime_config)
""", what=("raise", "state"), calls=("dataclasses.replace",))


def system(c):
    c.refine(SC + ".__post_init__", """
def __post_init__(self):
    if self.dimension not in [1, 2, 3]:
        raise ValueError("dimension")
    if len(self.supercell_shape) != 3:
        raise ValueError("shape")
""", what=("raise", "state"))


def runtime(c):
    c.refine(RC + ".__post_init__", """
def __post_init__(self):
    if self.temperature <= 0:
        raise ValueError("T")
    if self.attempt_frequency <= 0:
        raise ValueError("v")
    if self.equilibration_passes < 0:
        raise ValueError("eq")
    if self.kmc_passes <= 0:
        raise ValueError("kmc")
    validate_schedule(interval=self.property_sampling_interval, time_interval=self.property_sampling_time_interval)
    if not isinstance(self.builtin_property_enabled, dict):
        raise TypeError("enabled")
    for key, enabled in self.builtin_property_enabled.items():
        if key not in BUILTIN_PROPERTY_FIELDS:
            raise ValueError("unknown")
        if not isinstance(enabled, bool):
            raise TypeError("bool")
    if not isinstance(self.property_callbacks, list):
        raise TypeError("callbacks")
    for spec in self.property_callbacks:
        if not isinstance(spec, dict):
            raise TypeError("spec")
        for k in spec:
            if k not in {"callable", "name", "interval", "time_interval", "store", "max_records", "enabled"}:
                raise ValueError("keys")
        ref = spec.get("callable")
        if not isinstance(ref, str) or not ref.strip():
            raise ValueError("callable")
        validate_schedule(interval=spec.get("interval"), time_interval=spec.get("time_interval"))
        n = spec.get("max_records")
        if n is not None:
            if not isinstance(n, int):
                raise TypeError("max")
            if n <= 0:
                raise ValueError("max")
        if "store" in spec and not isinstance(spec["store"], bool):
            raise TypeError("store")
        if "enabled" in spec and not isinstance(spec["enabled"], bool):
            raise TypeError("enabled")
""", what=("raise",))


def schedule(c):
    c.refine("kmcpy.simulator.property.validate_schedule", """
def validate_schedule(interval, time_interval):
    if interval is not None:
        if not isinstance(interval, int):
            raise TypeError("int")
        if interval <= 0:
            raise ValueError("positive")
    if time_interval is not None and time_interval <= 0:
        raise ValueError("positive")
""", what=("raise",))
    c.refine("kmcpy.simulator.property.validate_max_records", """
def validate_max_records(max_records):
    if max_records is not None:
        if not isinstance(max_records, int):
            raise TypeError("int")
        if max_records <= 0:
            raise ValueError("positive")
""", what=("raise",))


OBLIGATIONS = [schedule, names, routing, system, runtime]
