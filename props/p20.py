from props.common import KMC

TITLE = "State, events, structure and model share one active-site index space"
A = "kmcpy.structure.active_site_order."
ASO = A + "ActiveSiteOrder"
EL = "kmcpy.event.base.EventLib"
ST = "kmcpy.simulator.state.State"
SP = "kmcpy.structure.species."


def order(c):
    """Active sites are the sites with more than one allowed species, numbered in supercell order; metadata describes them."""
    c.refine(ASO + ".from_structure_and_mapping", """
def from_structure_and_mapping(cls, template_structure, site_mapping, supercell_shape=None):
    shape = _normalize_supercell_shape(supercell_shape)
    allowed = _allowed_species_by_site(template_structure, site_mapping)
    active = tuple(i for i, a in enumerate(allowed) if len(a) > 1)
    if not active:
        raise ValueError("none")
    lookup = {p: k for k, p in enumerate(active)}
    full = _make_supercell_with_properties(template_structure=template_structure, primitive_active_lookup=lookup,
                                           supercell_shape=shape)
    to_original = []
    to_primitive = []
    fixed = []
    for i, site in enumerate(full):
        p = int(site.properties["_kmcpy_primitive_site_index"])
        if p in lookup:
            to_original.append(i)
            to_primitive.append(p)
        else:
            fixed.append(i)
    species = tuple(species_label(s.specie) for s in template_structure)
    labels = tuple(tuple(species_label(x) for x in a) for a in allowed)
    return cls(
        primitive_site_count=len(template_structure), original_site_count=len(full), primitive_active_indices=active,
        active_to_original=tuple(to_original), active_to_primitive=tuple(to_primitive), fixed_original_indices=tuple(fixed),
        supercell_shape=shape, species_by_primitive_site=species, allowed_species_by_primitive_site=labels,
        fingerprint=_fingerprint({
            "format": "kmcpy.active_site_order.v1", "primitive_site_count": len(template_structure),
            "original_site_count": len(full), "primitive_active_indices": active, "active_to_original": to_original,
            "active_to_primitive": to_primitive, "supercell_shape": shape, "species_by_primitive_site": species,
            "allowed_species_by_primitive_site": labels}),
        template_structure=template_structure.copy())
""", what=("ret", "raise"), opaque={A + x for x in ("_normalize_supercell_shape", "_allowed_species_by_site",
                                                    "_make_supercell_with_properties", "_fingerprint")} | {SP + "species_label"})
    c.refine(A + "_allowed_species_by_site", """
def _allowed_species_by_site(template_structure, site_mapping):
    entries = [(normalize_species(k), _normalize_allowed_species(v)) for k, v in site_mapping.items()]
    out = []
    for site in template_structure:
        hits = [a for k, a in entries if species_equivalent(site.specie, k)]
        if not hits:
            raise ValueError("no entry")
        out.append(hits[0])
    return out
""", what=("ret", "raise"), opaque={SP + "normalize_species", A + "_normalize_allowed_species", SP + "species_equivalent"})
    c.refine(A + "_normalize_allowed_species", """
def _normalize_allowed_species(value):
    if isinstance(value, (list, tuple)):
        return tuple(normalize_species(x) for x in value)
    return (normalize_species(value),)
""", what=("ret", "raise"), opaque={SP + "normalize_species"})
    c.refine(A + "_normalize_supercell_shape", """
def _normalize_supercell_shape(supercell_shape):
    if supercell_shape is None:
        return (1, 1, 1)
    shape = tuple(int(v) for v in supercell_shape)
    if len(shape) != 3:
        raise ValueError("3")
    if any(v <= 0 for v in shape):
        raise ValueError("positive")
    return shape
""", what=("ret", "raise"))


def maps(c):
    c.refine(ASO + ".original_to_active", """
def original_to_active(self):
    return {int(o): a for a, o in enumerate(self.active_to_original)}
""", what=("ret",))
    c.refine(ASO + ".primitive_to_active", """
def primitive_to_active(self):
    return {int(o): a for a, o in enumerate(self.primitive_active_indices)}
""", what=("ret",))
    c.refine(ASO + ".active_site_count", """
def active_site_count(self):
    return len(self.active_to_original)
""", what=("ret",))
    c.refine(ASO + ".select_active_values", """
def select_active_values(self, values):
    values = list(values)
    if len(values) == len(self.active_to_original):
        return values
    if len(values) == self.original_site_count:
        return [values[i] for i in self.active_to_original]
    raise ValueError("length")
""", what=("ret", "raise"))
    c.refine(ASO + ".validate_active_indices", """
def validate_active_indices(self, indices, field_name="indices"):
    if any(int(i) < 0 or int(i) >= len(self.active_to_original) for i in indices):
        raise IndexError("range")
""", what=("raise",))
    c.refine(ASO + ".assert_same_order", """
def assert_same_order(self, other):
    o = ActiveSiteOrder.from_dict(other) if isinstance(other, Mapping) else other
    if self.fingerprint != o.fingerprint:
        raise ValueError("differs")
""", what=("raise",), opaque={ASO + ".from_dict"})
    c.refine(ASO + ".active_structure", """
def active_structure(self):
    full = self.full_structure_with_properties()
    s = type(full).from_sites([full[i] for i in self.active_to_original])
    s.add_site_property("_kmcpy_active_site_index", list(range(len(self.active_to_original))))
    return s
""", what=("ret",), opaque={ASO + ".full_structure_with_properties"})


def meta(c):
    """A library without index metadata, or with metadata or indices of another space, is refused."""
    c.refine(EL + ".validate_index_metadata", """
def validate_index_metadata(self, active_site_order):
    if self.index_metadata is None:
        raise ValueError("missing")
    active_site_order.assert_same_order(self.index_metadata)
    for event in self.events:
        active_site_order.validate_active_indices(event.mobile_ion_indices, field_name="m")
        active_site_order.validate_active_indices(event.local_env_indices, field_name="l")
""", what=("raise",), ptypes={"active_site_order": ASO})
    c.refine(EL + ".set_index_metadata", """
def set_index_metadata(self, active_site_order):
    self.index_metadata = active_site_order.as_dict()
    for event in self.events:
        active_site_order.validate_active_indices(event.mobile_ion_indices, field_name="m")
        active_site_order.validate_active_indices(event.local_env_indices, field_name="l")
""", what=("raise", "state"), ptypes={"active_site_order": ASO}, opaque={ASO + ".as_dict"})


def loading(c):
    """Loading checks every event index against the stored order; a file without metadata is refused."""
    c.refine(EL + ".from_dict", """
def from_dict(cls, data):
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    if data.get("index_metadata") is None:
        raise ValueError("missing")
    order = ActiveSiteOrder.from_dict(data["index_metadata"])
    for d in data["events"]:
        e = Event.from_dict(d)
        order.validate_active_indices(e.mobile_ion_indices, field_name="m")
        order.validate_active_indices(e.local_env_indices, field_name="l")
""", what=("raise",), opaque={"kmcpy.event.base.Event.from_dict"}, inline_classes={EL})
    c.refine(EL + ".to", """
def to(self, filename):
    if self.index_metadata is None:
        raise ValueError("missing")
    dumpfn(self.as_dict(), filename, indent=4)
""", what=("raise",), calls=("monty.serialization.dumpfn",), opaque={EL + ".as_dict"})


def engine(c):
    """A configured run builds one order and uses it for structure, events, hop states, initial state and model."""
    OP = {"kmcpy.io.cif.load_labeled_structure_from_cif", ASO + ".from_structure_and_mapping", ASO + ".active_structure",
          "kmcpy.models.base.BaseModel.from_config", EL + ".from_file", EL + ".validate_index_metadata",
          "kmcpy.event.hop.HopStateLookup.from_active_site_order", ST + ".from_occupations", ST + ".from_file", KMC + ".__init__"}
    c.refine(KMC + ".from_config", """
def from_config(cls, config):
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.models.base import BaseModel
    from kmcpy.simulator.state import State
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    if config.site_mapping is None:
        raise ValueError("site_mapping")
    full = load_labeled_structure_from_cif(config.structure_file, primitive=config.convert_to_primitive_cell)
    order = ActiveSiteOrder.from_structure_and_mapping(full, config.site_mapping, supercell_shape=config.supercell_shape)
    lib = EventLib.from_file(config.event_file)
    lib.validate_index_metadata(order)
    if config.initial_occupations is not None:
        state = State.from_occupations(config.initial_occupations, active_site_order=order)
    elif config.initial_state_file:
        state = State.from_file(config.initial_state_file, supercell_shape=config.supercell_shape, active_site_order=order)
    else:
        raise ValueError("initial")
    return cls(structure=order.active_structure(), model=BaseModel.from_config(config), event_lib=lib, config=config,
               simulation_state=state, hop_state_lookup=HopStateLookup.from_active_site_order(order, config.mobile_ion_specie),
               active_site_order=order)
""", what=("ret", "raise"), calls=(EL + ".validate_index_metadata",), opaque=OP)


def initial(c):
    """Initial occupations are brought into the active-site space whatever their source."""
    c.refine(ST + ".from_occupations", """
def from_occupations(cls, occupations, active_site_order=None, time=0.0, step=0):
    values = list(occupations)
    if active_site_order is not None:
        values = active_site_order.select_active_values(values)
    return cls(occupations=values, time=time, step=step)
""", what=("ret", "raise"))
    c.refine(ST + "._initial_occupation_from_payload", """
def _initial_occupation_from_payload(occupation_raw_data, supercell_shape=None, select_sites=None, active_site_order=None):
    raw = np.array(occupation_raw_data)
    if active_site_order is not None:
        if len(raw) == active_site_order.active_site_count:
            return raw.tolist()
        return np.array(active_site_order.select_active_values(raw.tolist())).tolist()
    if select_sites is None:
        raise ValueError("select")
    if supercell_shape is None:
        raise ValueError("shape")
    shape = tuple(int(v) for v in supercell_shape)
    if len(shape) != 3:
        raise ValueError("3")
    n = shape[0] * shape[1] * shape[2]
    if len(raw) % n != 0:
        raise ValueError("len")
    return raw.reshape((int(len(raw) / n), *shape))[list(select_sites)].flatten("C").tolist()
""", what=("ret", "raise"))
    c.refine(ST + ".from_file", """
def from_file(cls, filepath, supercell_shape=None, select_sites=None, active_site_order=None, time=0.0, step=0):
    suffix = Path(filepath).suffix.lower()
    if suffix == ".h5":
        state = cls.load_checkpoint(filepath)
        if active_site_order is not None:
            state.occupations = active_site_order.select_active_values(state.occupations)
        return state
    if suffix != ".json":
        raise ValueError("suffix")
    payload = loadfn(filepath, cls=None)
    if not isinstance(payload, dict):
        raise ValueError("obj")
    if "occupations" in payload:
        return cls.from_occupations(payload["occupations"], active_site_order=active_site_order,
                                    time=payload.get("time", time), step=payload.get("step", step))
    if "occupation" in payload:
        return cls(occupations=cls._initial_occupation_from_payload(
            payload["occupation"], supercell_shape=supercell_shape, select_sites=select_sites,
            active_site_order=active_site_order), time=time, step=step)
    raise ValueError("keys")
""", what=("ret", "raise", "state"), opaque={ST + "._initial_occupation_from_payload", ST + ".from_occupations", ST + ".load_checkpoint"})


OBLIGATIONS = [order, maps, meta, loading, engine, initial]
