from kstat import consts

TITLE = "Configurations are immutable and survive the round trip through files"
M = "kmcpy.simulator.config."
CFG, SC, RC = M + "Configuration", M + "SystemConfig", M + "RuntimeConfig"


def frozen(c):
    """No field of a configuration can be assigned after construction."""
    for q in (CFG, SC, RC):
        k = c.program.get_class(q)
        where = f"{k.module.path}:{k.node.lineno} ({q})"
        if k.dataclass is None:
            own = "__setattr__" in k.methods
            (c.unknown if own else c.bad)(f"P17.frozen {k.name}", "immutability", where,
                                          "guards its own attributes" if own else "is an ordinary mutable class")
            continue
        c.expect(k.dataclass.get("frozen") is True and "__setattr__" not in k.methods, f"P17.frozen {k.name}", "immutability", where,
                 f"{k.name} is not a frozen dataclass: its fields can be reassigned")


def forward(c):
    """Reading a field on the whole gives the field of the part that owns it."""
    k = c.program.get_class(CFG)
    for part, q in (("system_config", SC), ("runtime_config", RC)):
        for n, _, _ in c.program.get_class(q).fields:
            if n in k.methods and k.methods[n].is_property:
                c.refine(f"{CFG}.{n}", f"def {n}(self):\n    return self.{part}.{n}\n", what=("ret",))


def records(c):
    c.refine(RC + ".as_dict", """
def as_dict(self):
    return {"temperature": self.temperature, "attempt_frequency": self.attempt_frequency,
            "equilibration_passes": self.equilibration_passes, "kmc_passes": self.kmc_passes,
            "random_seed": self.random_seed, "name": self.name,
            "property_sampling_interval": self.property_sampling_interval,
            "property_sampling_time_interval": self.property_sampling_time_interval,
            "builtin_property_enabled": dict(self.builtin_property_enabled),
            "property_callbacks": [dict(x) for x in self.property_callbacks]}
""", what=("ret", "raise", "state"))
    c.refine(SC + ".as_dict", """
def as_dict(self, include_loader_paths=False):
    from dataclasses import asdict
    data = asdict(self)
    data["supercell_shape"] = list(self.supercell_shape)
    if not include_loader_paths:
        for k in ("structure_file", "model_file", "event_file", "initial_state_file"):
            data.pop(k, None)
    return data
""", what=("ret", "raise"))
    OP = {SC + ".as_dict", RC + ".as_dict"}
    c.refine(CFG + ".as_dict", """
def as_dict(self, include_loader_paths=False):
    out = {"@module": self.__class__.__module__, "@class": self.__class__.__name__}
    out.update(self.system_config.as_dict(include_loader_paths=include_loader_paths))
    out.update(self.runtime_config.as_dict())
    return out
""", what=("ret", "raise"), opaque=OP)
    c.refine(CFG + ".as_record_dict", """
def as_record_dict(self):
    return self.as_dict(include_loader_paths=False)
""", what=("ret",), opaque={CFG + ".as_dict"})
    c.refine(CFG + ".as_input_dict", """
def as_input_dict(self):
    return self.as_dict(include_loader_paths=True)
""", what=("ret",), opaque={CFG + ".as_dict"})


def loading(c):
    c.refine(CFG + ".from_dict", """
def from_dict(cls, config_dict):
    if not isinstance(config_dict, dict):
        raise ValueError("dict")
    return cls(**{k: v for k, v in config_dict.items() if not str(k).startswith("@")})
""", what=("ret", "raise"), opaque={CFG + ".__init__"})
    c.refine(M + "_extract_section_data", """
def _extract_section_data(raw_data, filepath, section, task_type=None):
    if section not in raw_data:
        raise ValueError("section")
    data = raw_data[section]
    if isinstance(data, dict) and "type" in data:
        if task_type is None:
            task_type = data["type"]
        if task_type not in data:
            raise ValueError("type")
        data = data[task_type]
    if not isinstance(data, dict):
        raise ValueError("dict")
    return data.copy()
""", what=("ret", "raise"))
    c.refine(CFG + "._extract_file_config_data", """
def _extract_file_config_data(cls, raw_data, filepath, section=None, task_type=None):
    if not isinstance(raw_data, dict):
        raise ValueError("dict")
    if section is not None:
        return _extract_section_data(raw_data, filepath, section, task_type)
    if any(k in raw_data for k in CONFIG_FIELD_NAMES) or "kmc" not in raw_data:
        return raw_data
    return _extract_section_data(raw_data, filepath, "kmc", task_type)
""", what=("ret", "raise"), opaque={M + "_extract_section_data"})
    c.refine(CFG + ".from_file", """
def from_file(cls, filename, section=None, task_type=None):
    suffix = Path(str(filename)).suffix.lower()
    if suffix == ".json":
        raw = loadfn(filename, cls=None)
    elif suffix in {".yaml", ".yml"}:
        raw = loadfn(filename)
    else:
        raise ValueError("format")
    return cls.from_dict(cls._extract_file_config_data(raw, filename, section=section, task_type=task_type))
""", what=("ret", "raise"), opaque={CFG + ".from_dict", CFG + "._extract_file_config_data"})
    want = consts.string_set(c.program, M.rstrip("."), "SYSTEM_FIELD_NAMES"), consts.string_set(c.program, M.rstrip("."), "RUNTIME_FIELD_NAMES")
    got = consts.string_set(c.program, M.rstrip("."), "CONFIG_FIELD_NAMES")
    where = c.program.get_class(CFG).module.path
    if None in want or got is None:
        c.unknown("P17.CONFIG_FIELD_NAMES", "table", where, "tables are not literal sets")
    else:
        c.expect(got == want[0] | want[1], "P17.CONFIG_FIELD_NAMES", "table", where, "is not the union of the two field tables")


def saving(c):
    c.refine(CFG + ".to", """
def to(self, filename, include_loader_paths=False, section=None, task_type="default", **kwargs):
    suffix = Path(str(filename)).suffix.lower()
    if suffix not in (".json", ".yaml", ".yml"):
        raise ValueError("format")
    data = self.as_dict(include_loader_paths=include_loader_paths)
    if section is not None:
        if suffix == ".json":
            raise ValueError("section")
        old = loadfn(Path(filename)) if Path(filename).exists() else {}
        if not isinstance(old, dict):
            raise ValueError("dict")
        old[section] = {"type": task_type, task_type: data}
        dumpfn(old, filename)
        return
    if suffix == ".json":
        dumpfn(data, filename, indent=kwargs.get("indent", 2))
    else:
        dumpfn(data, filename)
""", what=("raise",), calls=("monty.serialization.dumpfn",), opaque={CFG + ".as_dict"}, exc=True)


def changes(c):
    for kind in ("runtime", "system"):
        c.refine(f"{CFG}.with_{kind}_changes", f"""
def with_changes(self, **changes):
    from dataclasses import replace
    return replace(self, {kind}_config=replace(self.{kind}_config, **changes))
""", what=("ret", "raise", "state"))


OBLIGATIONS = [frozen, forward, records, loading, saving, changes]
