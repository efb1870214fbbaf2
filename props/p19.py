TITLE = "Saved models and fitted parameters come back unchanged"
PM = "kmcpy.models.parameters."
LP, LH = PM + "LCEModelParameters", PM + "LCEModelParamHistory"
FIELDS = ("keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize")
OPTIONAL = ("orbit_fingerprints", "local_environment_hash", "local_site_order")


def parameters(c):
    """Fitted parameters: every field is written and read back under its own name."""
    c.refine(LP + ".as_dict", "def as_dict(self):\n    d = {'@module': self.__class__.__module__, '@class': self.__class__.__name__, "
             + ", ".join(f"'{k}': self.{k}" for k in FIELDS) + "}\n"
             + "".join(f"    if self.{k} is not None:\n        d['{k}'] = self.{k}\n" for k in OPTIONAL) + "    return d\n",
             what=("ret", "state"))
    dflt = dict(keci="[]", empty_cluster="0.0", cluster_site_indices="[]", weight="[]", alpha="0.0", time_stamp="''", time="''",
                rmse="0.0", loocv="0.0", normalize="True")
    c.refine(LP + ".from_dict", "def from_dict(cls, data):\n    if not isinstance(data, dict):\n        raise ValueError('dict')\n    return cls("
             + ", ".join(f"{k}=data.get('{k}', {dflt.get(k)})" for k in FIELDS + OPTIONAL) + ")\n", what=("ret", "raise"))
    R, W = PM + "_read_hdf5_parameter_group", PM + "_write_hdf5_parameter_group"
    RG, WG = PM + "_read_hdf5_group", PM + "_write_hdf5_group"
    c.refine(LP + ".from_file", """
def from_file(cls, filename):
    filename = Path(filename)
    if filename.suffix == ".h5":
        return cls.from_dict(_read_hdf5_parameter_group(filename))
    return cls.from_dict(loadfn(filename, cls=None))
""", what=("ret", "raise"), opaque={R, LP + ".from_dict"})
    c.refine(LP + ".to", """
def to(self, filename, indent=4):
    filename = Path(filename)
    if filename.suffix == ".h5":
        _write_hdf5_parameter_group(filename, self.as_dict())
    else:
        dumpfn(self.as_dict(), filename, indent=indent)
""", what=("raise",), calls=(W, "monty.serialization.dumpfn"), opaque={W, LP + ".as_dict"})
    c.refine(R, """
def _read_hdf5_parameter_group(filename):
    import h5py
    with h5py.File(filename, "r") as f:
        return _read_hdf5_group(f)
""", what=("ret",), opaque={RG})
    c.refine(W, """
def _write_hdf5_parameter_group(filename, data):
    import h5py
    with h5py.File(filename, "w") as f:
        _write_hdf5_group(f, data)
""", what=(), calls=(WG, "h5py.File"), opaque={WG})
    DV = PM + "_decode_hdf5_value"
    c.refine(RG, """
def _read_hdf5_group(group):
    return {k: _read_hdf5_group(v) if hasattr(v, "items") else _decode_hdf5_value(v[()]) for k, v in group.items()}
""", what=("ret",), opaque={RG, DV})
    c.refine(DV, """
def _decode_hdf5_value(value):
    if hasattr(value, "tolist"):
        value = value.tolist()
    if isinstance(value, bytes):
        return value.decode("utf-8")
    if isinstance(value, list):
        return [_decode_hdf5_value(v) for v in value]
    return value
""", what=("ret",), opaque={DV})
    c.refine(WG, """
def _write_hdf5_group(group, data):
    for k, v in data.items():
        if k.startswith("@") or v is None:
            continue
        if isinstance(v, dict):
            _write_hdf5_group(group.create_group(k), v)
        else:
            group.create_dataset(k, data=v)
""", what=("raise",), calls=(WG, ".create_dataset"), opaque={WG})


def history(c):
    """A parameter history keeps its records and their order, in every format."""
    RG, WG = PM + "_read_hdf5_group", PM + "_write_hdf5_group"
    c.refine(LH + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "history": [p.as_dict() for p in self.history]}
""", what=("ret", "state"), opaque={LP + ".as_dict"})
    c.refine(LH + ".from_dict", """
def from_dict(cls, data):
    if isinstance(data, list):
        records = data
    elif isinstance(data, dict):
        records = data.get("history", [])
    else:
        raise ValueError("history")
    return cls(history=[LCEModelParameters.from_dict(r) for r in records])
""", what=("ret", "raise"), opaque={LP + ".from_dict"})
    c.refine(LH + ".append", "def append(self, parameters):\n    self.history.append(parameters)\n", what=("state",))
    c.refine(LH + ".to", """
def to(self, filename, indent=4):
    filename = Path(filename)
    if filename.suffix == ".h5":
        import h5py
        with h5py.File(filename, "w") as f:
            for k, p in enumerate(self.history):
                _write_hdf5_group(f.create_group(f"parameter_set_{k}"), p.as_dict())
        return
    dumpfn(self.as_dict(), filename, indent=indent)
""", what=(), calls=(WG, "monty.serialization.dumpfn", "h5py.File"), opaque={WG, LP + ".as_dict", LH + ".as_dict"})
    c.refine(LH + ".from_file", """
def from_file(cls, filename):
    filename = Path(filename)
    if filename.suffix == ".h5":
        import h5py
        with h5py.File(filename, "r") as f:
            records = [_read_hdf5_group(f[k]) for k in sorted(f.keys(), key=lambda key: (len(key), key))]
        return cls.from_dict(records)
    return cls.from_dict(loadfn(filename, cls=None))
""", what=("ret",), opaque={RG, LH + ".from_dict"}, alts=("""
def from_file(cls, filename):
    filename = Path(filename)
    if filename.suffix == ".h5":
        import h5py
        with h5py.File(filename, "r") as f:
            records = [_read_hdf5_group(f[k]) for k in sorted(f.keys(), key=lambda key: int(key.rsplit("_", 1)[1]))]
        return cls.from_dict(records)
    return cls.from_dict(loadfn(filename, cls=None))
""", """
def from_file(cls, filename):
    filename = Path(filename)
    if filename.suffix == ".h5":
        import h5py
        with h5py.File(filename, "r") as f:
            records = [_read_hdf5_group(f[f"parameter_set_{k}"]) for k in range(len(f))]
        return cls.from_dict(records)
    return cls.from_dict(loadfn(filename, cls=None))
"""))


CM = "kmcpy.models.composite_lce_model.CompositeLCEModel"
LCE = "kmcpy.models.local_cluster_expansion.LocalClusterExpansion"
B = "kmcpy.models.base."


def envelope(c):
    """A model file names its type; a file of another type is refused."""
    RP = B + "require_model_file_payload"
    c.refine(RP, """
def require_model_file_payload(payload):
    if not isinstance(payload, dict):
        raise ValueError("object")
    if payload.get("filetype") not in SUPPORTED_MODEL_FILETYPES:
        raise ValueError("filetype")
    return payload
""", what=("ret", "raise"))
    c.refine(B + "require_model_type", """
def require_model_type(payload, model_type):
    data = require_model_file_payload(payload)
    if data.get("model_type") != model_type:
        raise ValueError("type")
    return data
""", what=("ret", "raise"), opaque={RP})
    for q, ind in ((B + "BaseModel", 4), (CM, 2), ("kmcpy.models.site_energy.SiteEnergyModel", 2), ("kmcpy.models.local_barrier_model.LocalBarrierModel", 2)):
        name = "fname" if q == B + "BaseModel" else "filename"
        arg = "4" if name == "fname" else "indent"
        sig = "self, fname" if name == "fname" else "self, filename, indent=2"
        c.refine(q + ".to", f"def to({sig}):\n    from monty.serialization import dumpfn\n    dumpfn(self.as_dict(), {name}, indent={arg})\n",
                 what=("raise",), calls=("monty.serialization.dumpfn",), opaque={q + ".as_dict"})
    c.refine(B + "BaseModel.from_file", "def from_file(cls, fname):\n    return cls.from_dict(loadfn(fname, cls=None))\n", what=("ret",))


def composite(c):
    """A composite model file holds both submodels with their own parameters and rebuilds them with those parameters."""
    SUB, SITE, PAR = CM + "._submodel_as_dict", CM + "._site_model_as_dict", CM + "._parameter_payload"
    VD, VS, VSI = CM + "._validate_dict", CM + "._validate_submodel_payload", CM + "._validate_site_model_payload"
    c.refine(CM + ".as_dict", """
def as_dict(self):
    if self.kra_model is None:
        raise ValueError("kra")
    data = {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "filetype": MODEL_FILETYPE,
            "model_type": "composite_lce",
            "kra": self._submodel_as_dict(self.kra_model, fit_metadata=self.kra_fit_metadata, label="kra")}
    if self.site_model is not None:
        data["site"] = self._site_model_as_dict(self.site_model, fit_metadata=self.site_fit_metadata, label="site")
    self._validate_dict(data)
    return data
""", what=("ret", "raise"), calls=(VD,), opaque={SUB, SITE, VD})
    c.refine(PAR, """
def _parameter_payload(model, label):
    if not hasattr(model, "keci") or not hasattr(model, "empty_cluster"):
        raise ValueError("parameters")
    out = {"keci": model.keci, "empty_cluster": model.empty_cluster, "orbit_fingerprints": model.get_orbit_fingerprints()}
    if getattr(model, "local_environment_hash", None) is not None:
        out["local_environment_hash"] = model.local_environment_hash
    return out
""", what=("ret", "raise"), opaque={LCE + ".get_orbit_fingerprints"})
    c.refine(SUB, """
def _submodel_as_dict(cls, model, fit_metadata, label):
    return {"lce": model.as_dict(), "parameters": cls._parameter_payload(model, label), "fit_metadata": fit_metadata}
""", what=("ret",), opaque={PAR, LCE + ".as_dict"})
    c.refine(SITE, """
def _site_model_as_dict(cls, model, fit_metadata, label):
    if isinstance(model, LocalClusterExpansion):
        return cls._submodel_as_dict(model, fit_metadata=fit_metadata, label=label)
    if not callable(getattr(model, "as_dict", None)):
        raise ValueError("as_dict")
    return {"model_type": getattr(model, "MODEL_TYPE", None), "model": model.as_dict(), "fit_metadata": fit_metadata,
            "delta_convention": "after_minus_before", "units": "meV"}
""", what=("ret", "raise"), opaque={SUB, LCE + ".as_dict"})
    c.refine(VS, """
def _validate_submodel_payload(name, data):
    if not isinstance(data, dict):
        raise ValueError("object")
    if "lce" not in data or not isinstance(data["lce"], dict):
        raise ValueError("lce")
    p = data.get("parameters")
    if not isinstance(p, dict):
        raise ValueError("parameters")
    if "keci" not in p or "empty_cluster" not in p:
        raise ValueError("keys")
""", what=("raise",))
    c.refine(VSI, """
def _validate_site_model_payload(data):
    if not isinstance(data, dict):
        raise ValueError("object")
    if "lce" in data:
        CompositeLCEModel._validate_submodel_payload("site", data)
        return
    if "model" not in data or not isinstance(data["model"], dict):
        raise ValueError("model")
""", what=("raise",), calls=(VS,), opaque={VS})
    c.refine(VD, """
def _validate_dict(cls, data):
    payload = require_model_type(data, "composite_lce")
    if "kra" not in payload:
        raise ValueError("kra")
    cls._validate_submodel_payload("kra", payload["kra"])
    if "site" in payload and payload["site"] is not None:
        cls._validate_site_model_payload(payload["site"])
""", what=("raise",), calls=(VS, VSI, B + "require_model_type"), opaque={VS, VSI, B + "require_model_type"})
    FD, SP, SM = LCE + ".from_dict", LCE + ".set_parameters", CM + "._site_model_from_dict"
    c.refine(CM + ".from_dict", """
def from_dict(cls, data):
    cls._validate_dict(data)
    k = data["kra"]
    kra = LocalClusterExpansion.from_dict(k["lce"])
    kra.set_parameters(k["parameters"])
    site = None
    meta = None
    if data.get("site") is not None:
        s = data["site"]
        if "lce" in s:
            site = LocalClusterExpansion.from_dict(s["lce"])
            site.set_parameters(s["parameters"])
        else:
            site = cls._site_model_from_dict(s)
        meta = s.get("fit_metadata")
    return cls(site_model=site, kra_model=kra, kra_fit_metadata=k.get("fit_metadata"), site_fit_metadata=meta)
""", what=("ret",), calls=(VD, FD, SP, ".set_parameters", SM), opaque={VD, FD, SP, SM}, order=((VD, FD),))
    c.refine(SM, """
def _site_model_from_dict(site_data):
    payload = site_data["model"]
    m, k = payload.get("@module"), payload.get("@class")
    if not m or not k:
        raise ValueError("class")
    cls = getattr(importlib.import_module(m), k)
    if not callable(getattr(cls, "from_dict", None)):
        raise ValueError("from_dict")
    model = cls.from_dict(payload)
    if not callable(getattr(model, "compute", None)):
        raise TypeError("compute")
    return model
""", what=("ret", "raise"))
    c.refine(CM + ".from_file", """
def from_file(cls, model_file):
    from monty.serialization import loadfn
    return cls.from_dict(loadfn(model_file, cls=None))
""", what=("ret",), opaque={CM + ".from_dict"})
    c.refine(CM + ".__init__", """
def __init__(self, site_model=None, kra_model=None, *args, kra_fit_metadata=None, site_fit_metadata=None, **kwargs):
    self.kra_model = kra_model
    self.site_model = site_model
    self.kra_fit_metadata = kra_fit_metadata or {"time_stamp": None, "time": None}
    self.site_fit_metadata = site_fit_metadata or {"time_stamp": None, "time": None}
""", what=("state",), places={"kra_model", "site_model", "kra_fit_metadata", "site_fit_metadata"})


def site_energy(c):
    """A site-energy model file keeps every reference, mapping and unit, and refuses a file whose mapping was edited."""
    M = "kmcpy.models.site_energy."
    S = M + "SiteEnergyModel"
    H, OA = S + ".external_site_order_hash", M + "_optional_array_payload"
    c.refine(S + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name,
            "compute_ref": self.compute_ref, "compute_kwargs": dict(self.compute_kwargs), "apply_ref": self.apply_ref,
            "apply_kwargs": dict(self.apply_kwargs), "runtime_ref": self.runtime_ref, "runtime_kwargs": dict(self.runtime_kwargs),
            "site_mapping": self.site_mapping, "state_mapping": self.state_mapping,
            "state_mapping_by_site": self.state_mapping_by_site,
            "initial_occupation": _optional_array_payload(self.initial_occupation), "external_size": self.external_size,
            "external_fill_value": self.external_fill_value, "external_dtype": self.external_dtype,
            "active_site_order": self.active_site_order.as_dict() if self.active_site_order is not None else None,
            "active_site_order_hash": self.active_site_order_hash, "external_site_order_hash": self.external_site_order_hash,
            "units": self.units}
""", what=("ret", "state"), opaque={H, OA, "kmcpy.structure.active_site_order.ActiveSiteOrder.as_dict"})
    c.refine(OA, """
def _optional_array_payload(value):
    if value is None:
        return None
    if isinstance(value, np.ndarray):
        return value.tolist()
    return list(value)
""", what=("ret",))
    names = ("compute_ref", "compute_kwargs", "apply_ref", "apply_kwargs", "runtime_ref", "runtime_kwargs", "site_mapping",
             "state_mapping", "state_mapping_by_site", "initial_occupation", "external_size", "external_dtype", "active_site_order",
             "active_site_order_hash")
    c.refine(S + ".from_dict", """
def from_dict(cls, data):
    if not isinstance(data, dict):
        raise ValueError("object")
    if data.get("model_type") == cls.MODEL_TYPE and cls.PAYLOAD_KEY in data:
        data = data[cls.PAYLOAD_KEY]
    model = cls(external_fill_value=data.get("external_fill_value", 0), units=data.get("units", "eV"),
                name=data.get("name", "SiteEnergyModel"), %s)
    stored = data.get("external_site_order_hash")
    if stored is not None and str(stored) != model.external_site_order_hash:
        raise ValueError("hash")
    return model
""" % ", ".join(f"{k}=data.get('{k}')" for k in names), what=("ret", "raise"), opaque={H})
    c.refine(H, """
def external_site_order_hash(self):
    return _external_site_order_hash(site_mapping=self.site_mapping, external_size=self.external_size,
                                     initial_occupation=self.initial_occupation)
""", what=("ret",), opaque={M + "_external_site_order_hash"})
    c.refine(M + "_external_site_order_hash", """
def _external_site_order_hash(*, site_mapping, external_size, initial_occupation):
    payload = {"format": "kmcpy.site_energy.external_site_order.v1",
               "site_mapping": [[int(s), int(e)] for s, e in sorted(site_mapping.items())] if site_mapping is not None else None,
               "external_size": int(external_size) if external_size is not None else None,
               "initial_occupation_length": int(len(initial_occupation)) if initial_occupation is not None else None}
    return hashlib.sha256(json.dumps(payload, sort_keys=True, separators=(",", ":")).encode("utf-8")).hexdigest()
""", what=("ret",))
    c.refine(S + ".from_file", """
def from_file(cls, filename):
    data = loadfn(filename, cls=None)
    if isinstance(data, dict) and data.get("filetype") == MODEL_FILETYPE:
        data = require_model_type(data, cls.MODEL_TYPE).get(cls.PAYLOAD_KEY)
    return cls.from_dict(data)
""", what=("ret",), opaque={S + ".from_dict", B + "require_model_type"})


def barrier(c):
    """A local-barrier model file keeps every rule, its order, the defaults and the species maps."""
    M = "kmcpy.models.local_barrier_model."
    S = M + "LocalBarrierModel"
    RD, SD = M + "_rule_as_dict", M + "_site_species_as_dict"
    c.refine(S + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name,
            "default_property": self.default_property, "probability_mode": self.probability_mode,
            "probability_property": self.probability_property,
            "default_properties": dict(self.default_properties) if self.default_properties is not None else None,
            "site_species": _site_species_as_dict(self.site_species), "rules": [_rule_as_dict(r) for r in self.rules]}
""", what=("ret", "state"), opaque={RD, SD})
    c.refine(SD, """
def _site_species_as_dict(site_species):
    return {str(k): {str(v): s for v, s in m.items()} for k, m in site_species.items()}
""", what=("ret",))
    c.refine(RD, """
def _rule_as_dict(rule):
    d = {"name": rule["name"], "type": rule["type"], "properties": dict(rule["properties"])}
    for key in ("mobile_ion_indices", "local_env_indices", "occupations", "pattern"):
        if key in rule:
            d[key] = list(rule[key])
    if "sites" in rule:
        sites = rule["sites"]
        d["sites"] = list(sites) if isinstance(sites, tuple) else sites
    if "state" in rule:
        d["state"] = int(rule["state"])
    if "species" in rule:
        species = rule["species"]
        d["species"] = species[0] if len(species) == 1 else list(species)
    for key in ("count", "min_count", "max_count"):
        if key in rule:
            d[key] = int(rule[key])
    return d
""", what=("ret",))
    c.refine(S + ".from_dict", """
def from_dict(cls, data):
    if not isinstance(data, dict):
        raise ValueError("object")
    if data.get("model_type") == cls.MODEL_TYPE and cls.PAYLOAD_KEY in data:
        data = data[cls.PAYLOAD_KEY]
    return cls(rules=data.get("rules", []), name=data.get("name", "LocalBarrierModel"),
               default_properties=data.get("default_properties"), default_barrier=data.get("default_barrier"),
               default_property=data.get("default_property", "barrier"),
               probability_mode=data.get("probability_mode", cls.SUPPORTED_PROBABILITY_MODE),
               probability_property=data.get("probability_property", "barrier"), site_species=data.get("site_species"))
""", what=("ret", "raise"))
    c.refine(S + ".from_file", """
def from_file(cls, filename):
    from monty.serialization import loadfn
    payload = loadfn(filename, cls=None)
    if isinstance(payload, dict) and "filetype" in payload:
        payload = require_model_type(payload, cls.MODEL_TYPE).get(cls.PAYLOAD_KEY)
        if not isinstance(payload, dict):
            raise ValueError("payload")
    return cls.from_dict(payload)
""", what=("ret", "raise"), opaque={S + ".from_dict", B + "require_model_type"})


def pieces(c):
    """Bases, site orders, clusters and orbits inside a model file are rebuilt as they were."""
    LS = "kmcpy.structure.local_site_order.LocalSiteOrder"
    c.refine(LS + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name, "sort_keys": list(self.sort_keys),
            "exclude_center_site": self.exclude_center_site, "center_match_tolerance": self.center_match_tolerance}
""", what=("ret", "state"))
    c.refine(LS + ".from_dict", """
def from_dict(cls, data):
    if "name" not in data:
        raise ValueError("name")
    name = str(data["name"])
    try:
        base = cls.from_name(name)
        name = base.name
    except ValueError:
        base = cls(name=name)
    return cls(name=name, sort_keys=tuple(data.get("sort_keys", base.sort_keys)),
               exclude_center_site=bool(data.get("exclude_center_site", base.exclude_center_site)),
               center_match_tolerance=float(data.get("center_match_tolerance", base.center_match_tolerance)))
""", what=("ret", "raise"), opaque={LS + ".from_name"})
    c.refine(LS + ".resolve", """
def resolve(cls, order):
    if order is None:
        return cls.from_name("kmcpy_default")
    if isinstance(order, cls):
        return order
    if isinstance(order, str):
        return cls.from_name(order)
    if isinstance(order, dict):
        return cls.from_dict(order)
    raise TypeError("order")
""", what=("ret", "raise"), opaque={LS + ".from_name", LS + ".from_dict"})
    BF = "kmcpy.structure.basis.BasisFunction"
    c.refine(BF + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name}
""", what=("ret", "state"))
    c.refine("kmcpy.structure.basis.ChebyshevBasis.as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name, "max_states": self.max_states}
""", what=("ret", "state"))
    c.refine(BF + ".from_dict", """
def from_dict(cls, data):
    if not isinstance(data, dict):
        raise ValueError("dict")
    target = cls
    if cls is BasisFunction:
        name = data.get("@class")
        for r in BASIS_REGISTRY.values():
            if r.__name__ == name:
                target = r
                break
        else:
            if data.get("name") in BASIS_REGISTRY:
                target = BASIS_REGISTRY[data.get("name")]
            else:
                raise ValueError("unknown")
    return target(**{k: v for k, v in data.items() if not k.startswith("@") and k != "name"})
""", what=("ret", "raise"))
    OR, CL = "kmcpy.structure.cluster.Orbit", "kmcpy.structure.cluster.Cluster"
    c.refine(OR + ".as_dict", """
def as_dict(self):
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "clusters": [x.as_dict() for x in self.clusters],
            "multiplicity": self.multiplicity, "cluster_site_indices": [list(x) for x in self.cluster_site_indices],
            "fingerprint": self.fingerprint}
""", what=("ret", "state"), opaque={OR + ".fingerprint", OR + ".cluster_site_indices", CL + ".as_dict"})
    c.refine(OR + ".from_dict", """
def from_dict(cls, data):
    if not isinstance(data, dict):
        raise ValueError("dict")
    o = cls()
    o.clusters = [Cluster.from_dict(x) for x in data.get("clusters", [])]
    o.multiplicity = int(data.get("multiplicity", len(o.clusters)))
    return o
""", what=("ret", "raise"), opaque={CL + ".from_dict"})
    JM = "kmcpy.structure.cluster._json_safe_metadata"
    c.refine(CL + ".as_dict", """
def as_dict(self):
    b = self.bond_distances
    if not isinstance(b, list):
        b = b.tolist()
    return {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "site_indices": list(self.site_indices),
            "type": self.type, "structure": self.structure.as_dict(), "sym": self.sym, "max_length": self.max_length,
            "min_length": self.min_length, "bond_distances": b, "roles": list(self.roles),
            "metadata": [_json_safe_metadata(x) for x in self.metadata]}
""", what=("ret", "state"), opaque={JM})
    c.refine(CL + ".from_dict", """
def from_dict(cls, data):
    if not isinstance(data, dict):
        raise ValueError("dict")
    x = cls(site_indices=data.get("site_indices", []), sites=Molecule.from_dict(data.get("structure", {})), roles=data.get("roles"),
            metadata=data.get("metadata"), sym=data.get("sym", ""))
    x.max_length = data.get("max_length", x.max_length)
    x.min_length = data.get("min_length", x.min_length)
    x.bond_distances = data.get("bond_distances", x.bond_distances)
    return x
""", what=("ret", "raise"))


def expansion(c):
    """A cluster-expansion file holds the orbits, their site lists, basis values and environment identity."""
    c.refine(LCE + ".as_dict", """
def as_dict(self):
    sites = []
    if hasattr(self, "cluster_site_indices"):
        sites = [[[int(s) for s in cl] for cl in orbit] for orbit in self.cluster_site_indices]
    basis = None
    if getattr(self, "correlation_basis_indices", None) is not None:
        basis = [[[int(k) for k in cl] for cl in f] for f in self.correlation_basis_indices]
    d = {"@module": self.__class__.__module__, "@class": self.__class__.__name__, "name": self.name,
         "basis": self.basis.as_dict() if hasattr(self.basis, "as_dict") else None, "orbits": [o.as_dict() for o in self.orbits],
         "orbit_fingerprints": self.get_orbit_fingerprints(), "cluster_site_indices": sites,
         "center_site": self.center_site.as_dict(), "migration_unit_structure": self.local_env_structure.as_dict()}
    if hasattr(self, "basis_site_state_counts"):
        d["basis_site_state_counts"] = [int(n) for n in self.basis_site_state_counts]
    if basis is not None:
        d["correlation_basis_indices"] = basis
    if getattr(self, "site_basis_values", None) is not None:
        d["site_basis_values"] = self.site_basis_values.tolist()
    if getattr(self, "correlation_feature_metadata", None) is not None:
        d["correlation_feature_metadata"] = self.correlation_feature_metadata
    if hasattr(self, "local_site_order"):
        d["local_site_order"] = self.local_site_order.as_dict()
    if hasattr(self, "local_environment_signature"):
        d["local_environment_signature"] = self.local_environment_signature
    if hasattr(self, "local_environment_hash"):
        d["local_environment_hash"] = self.local_environment_hash
    return d
""", what=("ret",), opaque={LCE + ".get_orbit_fingerprints"})


def loading(c):
    """A cluster expansion read from a file has every part the file holds, and is refused when its features are others."""
    L = LCE.rsplit(".", 1)[0] + "."
    T, U = L + "_to_numba_cluster_site_indices", L + "_to_numba_cluster_basis_indices"
    SO = "kmcpy.structure.local_site_order."
    OP = {T, U, "kmcpy.structure.basis.BasisFunction.from_dict", "kmcpy.structure.cluster.Orbit.from_dict", LCE + "._decorated_feature_fingerprint",
          SO + "LocalSiteOrder.resolve", "kmcpy.structure.basis.ordered_site_hash"}
    for f in c.program.functions():
        if f.qual.split(".")[-1] in ("ordered_site_signature", "ordered_site_hash"):
            OP.add(f.qual)
    head = """
def from_dict(cls, data):
    from pymatgen.core.sites import PeriodicSite
    from pymatgen.core.structure import Structure, Molecule
    from kmcpy.structure.basis import BasisFunction, ChebyshevBasis
"""
    unit = 'Molecule.from_dict(data["unit"]) if data["unit"].get("@class") == "Molecule" else Structure.from_dict(data["unit"])'
    base = '"@module": "m", "@class": "c", "name": data["name"], "orbits": data["orbits"], "cluster_site_indices": data["sites"], ' \
           '"center_site": data["center"], "migration_unit_structure": data["unit"]'
    parts = "obj.name, obj.orbits, obj.cluster_site_indices, obj.center_site, obj.local_env_structure, obj.orbit_fingerprints, " \
            "obj.local_site_order, obj.local_environment_signature, obj.local_environment_hash"
    basis = '"basis": {"k": data["basis"]}'
    made = 'BasisFunction.from_dict({"k": data["basis"]})'
    # a file of a decorated expansion, with everything a saved model holds
    c.lemma(LCE + ".from_dict", head + f"""
    obj = LocalClusterExpansion.from_dict({{{base}, {basis}, "orbit_fingerprints": list(data["prints"]),
        "correlation_basis_indices": list(data["indices"]), "site_basis_values": list(data["values"]),
        "basis_site_state_counts": data["counts"], "correlation_feature_metadata": list(data["meta"]), "local_site_order": data["order"],
        "local_environment_signature": data["signature"], "local_environment_hash": data["hash"]}})
    return ({parts}, obj.basis, obj.correlation_basis_indices, obj.site_basis_values, obj.basis_site_state_counts,
            obj.correlation_feature_metadata)
""", head + f"""
    orbits = [Orbit.from_dict(o) for o in data["orbits"]]
    meta = list(data["meta"])
    prints = [str(x) for x in [LocalClusterExpansion._decorated_feature_fingerprint(orbits[int(m["orbit_index"])], m) for m in meta]]
    if list(data["prints"]) != prints:
        raise ValueError("prints")
    if getattr({made}, "uses_state_indices", False) and _to_numba_cluster_basis_indices(list(data["indices"])) is None:
        raise ValueError("basis")
    return (data["name"] or cls.__name__, orbits, _to_numba_cluster_site_indices(data["sites"]), PeriodicSite.from_dict(data["center"]),
            {unit}, prints, LocalSiteOrder.resolve(data["order"]), data["signature"], data["hash"], {made},
            _to_numba_cluster_basis_indices(list(data["indices"])), np.asarray(list(data["values"]), dtype=float), data["counts"], meta)
""", "P19.a saved cluster expansion", what=("ret", "raise"), inline_classes={LCE}, opaque=OP)
    # a file without the optional parts
    c.lemma(LCE + ".from_dict", head + f"""
    obj = LocalClusterExpansion.from_dict({{{base}, {basis}, "orbit_fingerprints": list(data["prints"])}})
    return ({parts})
""", head + f"""
    orbits = [Orbit.from_dict(o) for o in data["orbits"]]
    if getattr({made}, "uses_state_indices", False):
        raise ValueError("basis")
    stored = list(data["prints"])
    prints = [o.fingerprint for o in orbits] if len(stored) == len(orbits) else [str(x) for x in stored]
    if stored != prints:
        raise ValueError("prints")
    env = {unit}
    signature = ordered_site_signature(env)
    return (data["name"] or cls.__name__, orbits, _to_numba_cluster_site_indices(data["sites"]), PeriodicSite.from_dict(data["center"]),
            env, prints, LocalSiteOrder.resolve(None), signature, ordered_site_hash(signature))
""", "P19.a minimal cluster expansion", what=("ret", "raise"), inline_classes={LCE}, opaque=OP)
    for q, name in ((T, "cluster_site_indices"), (U, "cluster_basis_indices")):
        c.refine(q, f"""
def {q.rsplit(".", 1)[1]}({name}):
    from numba.typed import List
    return List([List([List([int(i) for i in cluster]) for cluster in orbit]) for orbit in {name}])
""", what=("ret",))
    c.full_width([LCE + ".from_dict"])


OBLIGATIONS = [parameters, history, envelope, composite, site_energy, barrier, pieces, expansion, loading]
