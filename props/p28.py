TITLE = "Training data keep each structure together with its own value"
N = "kmcpy.io.neb.data."
E, L = N + "NEBEntry", N + "NEBDataLoader"
SRC, FS, OCC, ADD, ADDS, ADDM, RES, WA = (N + "_load_structure_source", E + ".from_structure", E + ".compute_occ_corr", L + ".add",
                                          L + ".add_structure", L + ".add_structures", L + "._resolve_model", L + "._as_weight_array")
MAT = {L + ".get_correlation_matrix", L + ".get_properties", L + ".get_occupation_matrix"}


def entries(c):
    """An entry holds the structure given (or read from the file given) and its value."""
    c.refine(SRC, """
def _load_structure_source(structure, metadata=None, **from_file_kwargs):
    m = dict(metadata or {})
    if isinstance(structure, Structure):
        if from_file_kwargs:
            raise ValueError("keywords")
        return structure, m
    if isinstance(structure, (str, os.PathLike)):
        s = Structure.from_file(str(Path(structure)), **from_file_kwargs)
        m.setdefault("structure_file", str(Path(structure)))
        return s, m
    raise TypeError("structure")
""", what=("ret", "raise"))
    c.refine(FS, """
def from_structure(cls, structure, property_value, metadata=None, **from_file_kwargs):
    s, m = _load_structure_source(structure, metadata=metadata, **from_file_kwargs)
    return cls(structure=s, property_value=float(property_value), metadata=m)
""", what=("ret", "raise"), opaque={SRC})
    c.refine(OCC, """
def compute_occ_corr(self, model, reference_local_lattice_structure=None, exclude_species=None, tol=1e-2, angle_tol=5):
    self.occupation, self.correlation = model.get_occ_corr_from_structure(
        self.structure,
        reference_local_lattice_structure=reference_local_lattice_structure or getattr(model, "local_lattice_structure", None),
        exclude_species=exclude_species, tol=tol, angle_tol=angle_tol)
""", what=("state",), opaque={"kmcpy.models.local_cluster_expansion.LocalClusterExpansion.get_occ_corr_from_structure"})


def loading(c):
    """Entries are kept in the order given, one model and one reference for all, after their vectors are computed."""
    c.refine(RES, """
def _resolve_model(self, model=None):
    if (model or self.model) is None:
        raise ValueError("model")
    return model or self.model
""", what=("ret", "raise"))
    c.refine(ADD, """
def add(self, neb_entry, model=None, reference_local_lattice_structure=None, exclude_species=None, tol=1e-2, angle_tol=5):
    if exclude_species is not None:
        raise ValueError("exclude_species")
    if not isinstance(neb_entry, NEBEntry):
        raise ValueError("entry")
    m = self._resolve_model(model)
    neb_entry.compute_occ_corr(
        m, reference_local_lattice_structure=reference_local_lattice_structure or self.reference_local_lattice_structure,
        exclude_species=self.exclude_species, tol=tol, angle_tol=angle_tol)
    if self.neb_entries:
        if len(neb_entry.occupation) != len(self.neb_entries[0].occupation):
            raise ValueError("occupation")
        if len(neb_entry.correlation) != len(self.neb_entries[0].correlation):
            raise ValueError("correlation")
    self.neb_entries.append(neb_entry)
    self.model = m
    self.model_name = getattr(m, "name", "unknown")
""", what=("raise", "state"), calls=(OCC,), places={"neb_entries", "model", "model_name"}, opaque={OCC, RES})
    c.refine(ADDS, """
def add_structure(self, structure, property_value, model=None, metadata=None, reference_local_lattice_structure=None,
                  exclude_species=None, tol=1e-2, angle_tol=5, **from_file_kwargs):
    e = NEBEntry.from_structure(structure=structure, property_value=property_value, metadata=metadata, **from_file_kwargs)
    self.add(e, model=model, reference_local_lattice_structure=reference_local_lattice_structure, exclude_species=exclude_species,
             tol=tol, angle_tol=angle_tol)
    return e
""", what=("ret", "raise"), calls=(ADD,), opaque={FS, ADD})
    c.refine(ADDM, """
def add_structures(self, structures, property_values, model=None, metadata=None, reference_local_lattice_structure=None,
                   exclude_species=None, tol=1e-2, angle_tol=5, **from_file_kwargs):
    if len(structures) != len(property_values):
        raise ValueError("length")
    if metadata is not None and len(metadata) != len(structures):
        raise ValueError("metadata")
    for k, (s, p) in enumerate(zip(structures, property_values)):
        self.add_structure(structure=s, property_value=p, model=model, metadata=metadata[k] if metadata is not None else None,
                           reference_local_lattice_structure=reference_local_lattice_structure, exclude_species=exclude_species,
                           tol=tol, angle_tol=angle_tol, **from_file_kwargs)
""", what=("raise",), calls=(ADDS,), opaque={ADDS})
    c.refine(L + ".from_structures", """
def from_structures(cls, structures, property_values, model, reference_local_lattice_structure=None, exclude_species=None,
                    metadata=None, tol=1e-2, angle_tol=5, **from_file_kwargs):
    out = cls(model=model, reference_local_lattice_structure=reference_local_lattice_structure, exclude_species=exclude_species)
    out.add_structures(structures=structures, property_values=property_values, metadata=metadata, exclude_species=exclude_species,
                       tol=tol, angle_tol=angle_tol, **from_file_kwargs)
    return out
""", what=("raise",), calls=(ADDM,), opaque={ADDM})
    c.refine(L + ".__init__", """
def __init__(self, model=None, reference_local_lattice_structure=None, exclude_species=None):
    if exclude_species is not None:
        raise ValueError("exclude_species")
    self.neb_entries = []
    self.model = model
    self.reference_local_lattice_structure = reference_local_lattice_structure
    self.exclude_species = None
    if model is not None:
        self.model_name = getattr(model, "name", "unknown")
""", what=("raise", "state"), places={"neb_entries", "model", "reference_local_lattice_structure", "model_name"})


def tables(c):
    """Row k of every table, file and weight vector belongs to entry k."""
    for name, expr in (("get_correlation_matrix", "correlation"), ("get_occupation_matrix", "occupation.data"),
                       ("get_properties", "property_value")):
        c.refine(f"{L}.{name}", f"""
def {name}(self):
    if not self.neb_entries:
        raise ValueError("none")
    return np.array([e.{expr} for e in self.neb_entries])
""", what=("ret", "raise"))
    c.refine(WA, """
def _as_weight_array(weight, n_entries):
    if np.isscalar(weight):
        return np.full(n_entries, float(weight))
    w = np.asarray(weight, dtype=float)
    if w.shape != (n_entries,):
        raise ValueError("shape")
    return w
""", what=("ret", "raise"))
    c.refine(L + ".to", """
def to(self, output_dir=".", prefix="ekra"):
    if not self.neb_entries:
        raise ValueError("none")
    os.makedirs(output_dir, exist_ok=True)
    path = os.path.join(output_dir, f"{prefix}.json")
    with open(path, "w") as f:
        json.dump({"correlation_matrix": self.get_correlation_matrix().tolist(),
                   "occupation_matrix": self.get_occupation_matrix().tolist(), "properties": self.get_properties().tolist(),
                   "metadata": [e.metadata or {} for e in self.neb_entries], "n_structures": len(self.neb_entries),
                   "model_name": getattr(self, "model_name", "unknown")}, f, indent=2)
    return path
""", what=("ret", "raise"), calls=("json.dump",), opaque=MAT)
    c.refine(L + ".write_fitting_inputs", """
def write_fitting_inputs(self, output_dir=".", weight=1.0, corr_fname="correlation_matrix.txt", ekra_fname="e_kra.txt",
                         weight_fname="weight.txt"):
    if not self.neb_entries:
        raise ValueError("none")
    out = Path(output_dir)
    out.mkdir(parents=True, exist_ok=True)
    np.savetxt(out / corr_fname, self.get_correlation_matrix(), fmt="%.18e")
    np.savetxt(out / ekra_fname, self.get_properties(), fmt="%.18e")
    np.savetxt(out / weight_fname, self._as_weight_array(weight, len(self.neb_entries)), fmt="%.18e")
    return {"corr_fname": str(out / corr_fname), "ekra_fname": str(out / ekra_fname), "weight_fname": str(out / weight_fname)}
""", what=("ret", "raise"), calls=("numpy.savetxt",), opaque=MAT | {WA})




OBLIGATIONS = [entries, loading, tables]
