from props.p20 import initial

TITLE = "State, event and event-library files restore what was saved"
E = "kmcpy.event.base.Event"
EL = "kmcpy.event.base.EventLib"
ST = "kmcpy.simulator.state.State"
ASO = "kmcpy.structure.active_site_order.ActiveSiteOrder"


def event(c):
    c.refine(E + ".as_dict", """
def as_dict(self):
    return {"mobile_ion_indices": self.mobile_ion_indices, "local_env_indices": self.local_env_indices}
""", what=("ret", "state"))
    c.refine(E + ".from_dict", """
def from_dict(cls, event_dict):
    return cls(tuple(event_dict.get("mobile_ion_indices", ())), tuple(event_dict.get("local_env_indices", [])))
""", what=("ret", "raise"))
    c.lemma(E + ".as_dict", """
def law(self):
    return Event.from_dict(self.as_dict())
""", """
def law(self):
    return Event(tuple(self.mobile_ion_indices), tuple(self.local_env_indices))
""", oid="P18.event round trip")


def state(c):
    c.refine(ST + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "occupations": list(self.occupations),
            "time": float(self.time), "step": int(self.step)}
""", what=("ret", "state"))
    c.refine(ST + ".from_dict", """
def from_dict(cls, data):
    return cls(occupations=data["occupations"], time=data["time"], step=data["step"])
""", what=("ret", "raise"))
    c.lemma(ST + ".as_dict", """
def law(self):
    return State.from_dict(self.as_dict())
""", """
def law(self):
    return State(occupations=list(self.occupations), time=float(self.time), step=int(self.step))
""", oid="P18.state round trip", inline_classes={ST})
    c.refine(ST + ".copy", """
def copy(self):
    return State(occupations=list(self.occupations), time=self.time, step=self.step)
""", what=("ret", "state"), inline_classes={ST})
    c.refine(ST + ".__init__", """
def __init__(self, occupations, time=0.0, step=0):
    self.occupations = list(occupations)
    self.time = float(time)
    self.step = int(step)
""", what=("state", "raise"))
    c.owned(ST + ".__init__", "occupations", "P18.state owns its occupations")


def checkpoint(c):
    """JSON and HDF5 checkpoints hold occupations, time and step, each under its own name, and are read back as such."""
    c.refine(ST + ".save_checkpoint", """
def save_checkpoint(self, filepath):
    data = self.as_dict()
    if filepath.endswith(".json"):
        dumpfn(data, filepath, indent=2)
        return
    if filepath.endswith(".h5"):
        import h5py
        with h5py.File(filepath, "w") as f:
            for k, v in data.items():
                if k.startswith("@"):
                    continue
                f.create_dataset(k, data=v)
        return
    raise ValueError("format")
""", what=("raise",), calls=("monty.serialization.dumpfn", ".create_dataset", "h5py.File"))
    c.refine(ST + ".load_checkpoint", """
def load_checkpoint(cls, filepath):
    if filepath.endswith(".json"):
        return cls.from_file(filepath)
    if filepath.endswith(".h5"):
        import h5py
        with h5py.File(filepath, "r") as f:
            data = {"occupations": f["occupations"][()].tolist(), "time": float(f["time"][()]), "step": int(f["step"][()])}
        return cls.from_dict(data)
    raise ValueError("format")
""", what=("ret", "raise"), opaque={ST + ".from_file"})
    initial(c)


def library(c):
    c.refine(EL + ".as_dict", """
def as_dict(self):
    deps = None
    if self.event_dependencies is not None:
        deps = [[int(i) for i in row] for row in self.event_dependencies]
    return {"events": [e.as_dict() for e in self.events], "event_dependencies": deps,
            "site_to_events": {str(k): v for k, v in self.site_to_events.items()}, "index_metadata": self.index_metadata}
""", what=("ret", "raise", "state"))
    stored(c)
    c.refine(EL + ".to", """
def to(self, filename):
    if self.index_metadata is None:
        raise ValueError("missing")
    dumpfn(self.as_dict(), filename, indent=4)
""", what=("raise",), calls=("monty.serialization.dumpfn",), opaque={EL + ".as_dict"})


def stored(c):
    """A library read back has the events, dependencies, site map and metadata of the record."""
    c.refine(EL + ".from_dict", """
def from_dict(cls, data):
    lib = cls()
    lib.index_metadata = data["index_metadata"]
    lib.events = [Event.from_dict(d) for d in data["events"]]
    if data.get("event_dependencies"):
        lib.event_dependencies = [[int(i) for i in row] for row in data["event_dependencies"]]
    lib.site_to_events = {int(k): v for k, v in data.get("site_to_events", {}).items()}
    return lib
""", what=("ret",), opaque={E + ".from_dict", ASO + ".from_dict", EL + "._validate_event_indices"}, inline_classes={EL})


def order(c):
    """The active-site order survives its own serialisation field by field (the template structure is not stored)."""
    F = ("primitive_active_indices", "active_to_original", "active_to_primitive", "fixed_original_indices", "supercell_shape")
    c.lemma(ASO + ".as_dict", """
def law(self):
    return ActiveSiteOrder.from_dict(self.as_dict())
""", """
def law(self):
    return ActiveSiteOrder(
        primitive_site_count=int(self.primitive_site_count), original_site_count=int(self.original_site_count),
        primitive_active_indices=tuple(int(i) for i in self.primitive_active_indices),
        active_to_original=tuple(int(i) for i in self.active_to_original),
        active_to_primitive=tuple(int(i) for i in self.active_to_primitive),
        fixed_original_indices=tuple(int(i) for i in self.fixed_original_indices),
        supercell_shape=tuple(int(i) for i in self.supercell_shape),
        species_by_primitive_site=tuple(self.species_by_primitive_site),
        allowed_species_by_primitive_site=tuple(tuple(s) for s in self.allowed_species_by_primitive_site),
        fingerprint=str(self.fingerprint), template_structure=None)
""", oid="P18.order round trip")
    c.refine(ASO + ".from_dict", """
def from_dict(cls, data):
    if data.get("format") != "kmcpy.active_site_order.v1":
        raise ValueError("format")
""", what=("raise",))


def width(c):
    """Numbers are kept at full width."""
    c.full_width([ST + x for x in (".__init__", ".from_dict", ".save_checkpoint", ".load_checkpoint", ".from_file", "._initial_occupation_from_payload")])


OBLIGATIONS = [event, state, checkpoint, library, order, width]
