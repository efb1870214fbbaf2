TITLE = "A cluster expansion evaluates exactly the features it was fitted on"
M = "kmcpy.models.local_cluster_expansion."
LCE = M + "LocalClusterExpansion"
VP, GF = LCE + "._validate_parameter_orbits", LCE + ".get_orbit_fingerprints"
CC, CD, CX = M + "_calc_corr", M + "_calc_corr_decorated", LCE + "._calculate_correlation"


def features(c):
    """Each feature is the sum over the clusters of its orbit of the product of the site values."""
    c.refine(CC, """
def _calc_corr(corr, occ_latt, cluster_site_indices):
    for i, orbit in enumerate(cluster_site_indices):
        total = 0
        for cluster in orbit:
            p = 1
            for s in cluster:
                p *= occ_latt[s]
            total += p
        corr[i] = total
""", what=("state", "raise"))
    c.refine(CD, """
def _calc_corr_decorated(corr, occ_latt, cluster_site_indices, cluster_basis_indices, site_basis_values):
    for i, orbit in enumerate(cluster_site_indices):
        total = 0.0
        for k, cluster in enumerate(orbit):
            p = 1.0
            for n, s in enumerate(cluster):
                p *= site_basis_values[s, occ_latt[s], cluster_basis_indices[i][k][n]]
            total += p
        corr[i] = total
""", what=("state", "raise"))
    c.refine(CX, """
def _calculate_correlation(self, corr, occupation):
    if getattr(self, "correlation_basis_indices", None) is not None and getattr(self, "site_basis_values", None) is not None:
        _calc_corr_decorated(corr, occupation.astype(np.int64), self.cluster_site_indices, self.correlation_basis_indices,
                             self.site_basis_values)
    else:
        _calc_corr(corr, occupation, self.cluster_site_indices)
""", what=("raise",), calls=(CC, CD), opaque={CC, CD})


def value(c):
    c.refine(LCE + ".compute", """
def compute(self, simulation_state, event):
    if not hasattr(self, "keci") or not hasattr(self, "empty_cluster"):
        raise ValueError("parameters")
    keci = self._validate_parameter_orbits(self.keci, getattr(self, "parameter_orbit_fingerprints", None),
                                           getattr(self, "parameter_local_environment_hash", None))
    if simulation_state is None:
        raise ValueError("state")
    if event is None:
        raise ValueError("event")
    occ = np.array(simulation_state.occupations)[list(event.local_env_indices)]
    basis = getattr(self, "basis", None)
    if basis is not None and not getattr(basis, "uses_state_indices", False):
        counts = getattr(self, "basis_site_state_counts", None) or [None] * len(occ)
        occ = np.array([basis.state_value(s, n) for s, n in zip(occ, counts)])
    corr = np.empty(shape=len(self.cluster_site_indices))
    self._calculate_correlation(corr, occ)
    return np.inner(corr, keci) + self.empty_cluster
""", what=("ret", "raise"), calls=(CX,), opaque={VP, CX})


def binding(c):
    """Coefficients are accepted only for the features and the local environment they were fitted on."""
    c.refine(GF, """
def get_orbit_fingerprints(self):
    if hasattr(self, "correlation_fingerprints"):
        return [str(v) for v in self.correlation_fingerprints]
    if not hasattr(self, "orbits"):
        return []
    return [o.fingerprint for o in self.orbits]
""", what=("ret", "raise"))
    c.refine(VP, """
def _validate_parameter_orbits(self, keci, orbit_fingerprints=None, local_environment_hash=None):
    values = list(keci)
    want = self.get_orbit_fingerprints()
    if want and len(values) != len(want):
        raise ValueError("length")
    h = getattr(self, "local_environment_hash", None)
    if h and local_environment_hash is not None and str(local_environment_hash) != str(h):
        raise ValueError("environment")
    if orbit_fingerprints is not None:
        got = [str(v) for v in orbit_fingerprints]
        if len(got) != len(want):
            raise ValueError("length")
        if got != want:
            raise ValueError("order")
    return values
""", what=("ret", "raise"), opaque={GF})
    c.refine(LCE + ".set_parameters", """
def set_parameters(self, parameters):
    from kmcpy.models.parameters import LCEModelParameters
    if isinstance(parameters, LCEModelParameters):
        keci = parameters.keci
        empty = parameters.empty_cluster
        fp = getattr(parameters, "orbit_fingerprints", None)
        h = getattr(parameters, "local_environment_hash", None)
        so = getattr(parameters, "local_site_order", None)
    elif isinstance(parameters, dict):
        keci = parameters["keci"]
        empty = parameters["empty_cluster"]
        fp = parameters.get("orbit_fingerprints")
        h = parameters.get("local_environment_hash")
        so = parameters.get("local_site_order")
    else:
        raise TypeError("parameters")
    self.keci = self._validate_parameter_orbits(keci, fp, h)
    self.empty_cluster = empty
    self.parameter_orbit_fingerprints = [str(v) for v in fp] if fp is not None else self.get_orbit_fingerprints()
    self.parameter_local_environment_hash = str(h) if h is not None else getattr(self, "local_environment_hash", None)
    self.parameter_local_site_order = so
""", what=("raise", "state"), places={"keci", "empty_cluster", "parameter_orbit_fingerprints", "parameter_local_environment_hash",
                                                "parameter_local_site_order"},
             opaque={VP, GF})
    c.refine(LCE + ".validate_reference_lattice_structure", """
def validate_reference_lattice_structure(self, reference_local_lattice_structure):
    if not hasattr(self, "cluster_site_indices"):
        raise ValueError("model")
    h = getattr(self, "local_environment_hash", None)
    if h and hasattr(reference_local_lattice_structure, "get_ordered_site_hash"):
        if reference_local_lattice_structure.get_ordered_site_hash() != h:
            raise ValueError("order")
    sites = [int(s) for orbit in self.cluster_site_indices for cluster in orbit for s in cluster]
    if sites and (min(sites) < 0 or max(sites) >= len(reference_local_lattice_structure.site_indices)):
        raise ValueError("range")
""", what=("raise",))


def fitted(c):
    """Training features are computed from the structure in the model's own site order."""
    c.refine(LCE + ".get_occ_corr_from_structure", """
def get_occ_corr_from_structure(self, structure, reference_local_lattice_structure=None, exclude_species=None, tol=1e-2, angle_tol=5):
    ref = reference_local_lattice_structure or getattr(self, "local_lattice_structure", None)
    if ref is None:
        raise ValueError("reference")
    self.validate_reference_lattice_structure(ref)
    if exclude_species is not None:
        raise ValueError("exclude")
    s = structure.copy()
    order = getattr(ref, "active_site_order", None)
    if order is not None:
        s = order.filter_active_structure(s, tol=tol)
    s.remove_oxidation_states()
    occ = ref.get_occ_from_structure(s, tol=tol, angle_tol=angle_tol)
    corr = np.empty(shape=len(self.cluster_site_indices))
    self._calculate_correlation(corr, occ[ref.site_indices].data)
    return occ, corr
""", what=("ret", "raise"), calls=(CX, LCE + ".validate_reference_lattice_structure"),
             opaque={LCE + ".validate_reference_lattice_structure", CX,
                                                "kmcpy.structure.lattice_structure.LatticeStructure.get_occ_from_structure",
                                                "kmcpy.structure.active_site_order.ActiveSiteOrder.filter_active_structure"})


def identity(c):
    """What the hash of an ordered local environment identifies: every site's species and coordinates, in order."""
    L, W = "kmcpy.structure.local_site_order.", "kmcpy.structure.local_lattice_structure.LocalLatticeStructure"
    c.refine(L + "ordered_site_signature", """
def ordered_site_signature(sites, *, decimals=8):
    return [{"species": s.species_string, "cartesian_coords": [round(float(x), decimals) for x in s.coords]} for s in sites]
""", what=("ret",))
    c.refine(L + "ordered_site_hash", """
def ordered_site_hash(signature):
    return hashlib.sha256(json.dumps(signature, sort_keys=True, separators=(",", ":")).encode("utf-8")).hexdigest()
""", what=("ret",))
    c.refine(W + ".get_ordered_site_signature", "def get_ordered_site_signature(self):\n    return ordered_site_signature(self.structure)\n",
             what=("ret",), opaque={L + "ordered_site_signature"})
    c.refine(W + ".get_ordered_site_hash", "def get_ordered_site_hash(self):\n    return ordered_site_hash(self.get_ordered_site_signature())\n",
             what=("ret",), opaque={L + "ordered_site_hash", W + ".get_ordered_site_signature"})
    c.refine("kmcpy.structure.cluster.Orbit.fingerprint", """
def fingerprint(self):
    records = [{"site_indices": [int(i) for i in cl.site_indices],
                "labels": [[str(a), str(b)] for a, b in cl.labels],
                "distances": np.round(cl.distance_matrix, 8).tolist()} for cl in self.clusters]
    records = sorted(records, key=lambda record: json.dumps(record, sort_keys=True, separators=(",", ":")))
    payload = {"clusters": records, "multiplicity": int(self.multiplicity)}
    return hashlib.sha256(json.dumps(payload, sort_keys=True, separators=(",", ":")).encode("utf-8")).hexdigest()
""", what=("ret",))
    c.refine("kmcpy.structure.cluster.Orbit.attach_cluster", """
def attach_cluster(self, cluster):
    self.clusters.append(cluster)
    self.multiplicity += 1
""", what=("state",))


def build(c):
    c.refine(LCE + "._configure_correlation_terms", """
def _configure_correlation_terms(self, local_lattice_structure):
    counts = [len(local_lattice_structure.allowed_species[int(i)]) for i in local_lattice_structure.site_indices]
    self.basis_site_state_counts = counts
    if not getattr(self.basis, "uses_state_indices", False):
        self.cluster_site_indices = _to_numba_cluster_site_indices([[cl.site_indices for cl in o.clusters] for o in self.orbits])
        self.correlation_basis_indices = None
        self.site_basis_values = None
        self.correlation_feature_metadata = None
        self.correlation_fingerprints = [o.fingerprint for o in self.orbits]
        return
    self.site_basis_values = self._build_site_basis_values(counts)
    sites = []
    bases = []
    meta = []
    prints = []
    for k, o in enumerate(self.orbits):
        rep = o.clusters[0]
        number = [min([self.basis.num_site_basis_functions(counts[int(cl.site_indices[p])]) for cl in o.clusters])
                  for p in range(len(rep.site_indices))]
        for deco in product(*(range(n) for n in number)):
            deco = tuple(int(x) for x in deco)
            m = {"orbit_index": k, "basis_indices": list(deco), "site_state_counts": [counts[int(s)] for s in rep.site_indices]}
            sites.append([cl.site_indices for cl in o.clusters])
            bases.append([deco for cl in o.clusters])
            meta.append(m)
            prints.append(self._decorated_feature_fingerprint(o, m))
    self.cluster_site_indices = _to_numba_cluster_site_indices(sites)
    self.correlation_basis_indices = _to_numba_cluster_basis_indices(bases)
    self.correlation_feature_metadata = meta
    self.correlation_fingerprints = prints
""", what=("raise", "state"), opaque={M + "_to_numba_cluster_site_indices", M + "_to_numba_cluster_basis_indices",
                                      LCE + "._build_site_basis_values", LCE + "._decorated_feature_fingerprint"})
    c.refine(LCE + "._decorated_feature_fingerprint", """
def _decorated_feature_fingerprint(orbit, metadata):
    text = json.dumps({"orbit_fingerprint": orbit.fingerprint, "basis_indices": metadata["basis_indices"],
                       "site_state_counts": metadata["site_state_counts"]}, sort_keys=True, separators=(",", ":"))
    return hashlib.sha256(text.encode("utf-8")).hexdigest()
""", what=("ret",), opaque={"kmcpy.structure.cluster.Orbit.fingerprint"})
    for fn, x in (("_to_numba_cluster_site_indices", "cluster_site_indices"),
                  ("_to_numba_cluster_basis_indices", "cluster_basis_indices")):
        c.refine(M + fn, f"""
def {fn}({x}):
    return [[[int(s) for s in cluster] for cluster in orbit] for orbit in {x}]
""", what=("ret",))
    c.refine(LCE + ".build_clusters", """
def build_clusters(self, local_env_structure, indexes, cutoff):
    out = []
    for ids in indexes:
        cl = Cluster(ids, [local_env_structure[s] for s in ids], analyze_symmetry=True)
        if cl.max_length < cutoff[len(cl.site_indices) - 1]:
            out.append(cl)
    return out
""", what=("ret",), opaque={"kmcpy.structure.cluster.Cluster"})
    c.refine(LCE + "._build_site_basis_values", """
def _build_site_basis_values(self, site_state_counts):
    values = np.zeros((len(site_state_counts), max(int(n) for n in site_state_counts),
                       max(self.basis.num_site_basis_functions(int(n)) for n in site_state_counts)), dtype=float)
    for k, n in enumerate(site_state_counts):
        v = self.basis.site_basis_values(int(n))
        values[k, :v.shape[0], :v.shape[1]] = v
    return values
""", what=("ret",))
    c.refine(LCE + ".build_orbits", """
def build_orbits(self, clusters):
    seen = []
    groups = []
    for cl in clusters:
        if cl not in seen:
            seen.append(cl)
            groups.append([cl])
        else:
            groups[seen.index(cl)].append(cl)
    out = []
    for g in groups:
        o = Orbit()
        for cl in g:
            o.attach_cluster(cl)
        out.append(o)
    return out
""", what=("ret",), calls=("kmcpy.structure.cluster.Orbit.attach_cluster",), opaque={"kmcpy.structure.cluster.Orbit.attach_cluster"})


def encoding(c):
    """The values a basis gives to the species states of a site."""
    B = "kmcpy.structure.basis."
    c.refine(B + "BasisFunction.state_value", """
def state_value(self, state_index, n_states=None):
    return self.match_value if int(state_index) == 0 else self.mismatch_value
""", what=("ret",))
    c.refine(B + "ChebyshevBasis.state_value", "def state_value(self, state_index, n_states=None):\n    return int(state_index)\n", what=("ret",))
    c.refine(B + "BasisFunction.site_basis_values", """
def site_basis_values(self, n_states):
    return np.array([[self.state_value(s, n_states)] for s in range(int(n_states))])
""", what=("ret",))
    c.refine(B + "BasisFunction.num_site_basis_functions", "def num_site_basis_functions(self, n_states):\n    return 1\n", what=("ret",))
    c.refine(B + "ChebyshevBasis.num_site_basis_functions", """
def num_site_basis_functions(self, n_states):
    return 1 if int(n_states) < 2 else int(n_states) - 1
""", what=("ret",))
    c.refine(B + "ChebyshevBasis.site_basis_values", """
def site_basis_values(self, n_states):
    n = int(n_states)
    if n < 2:
        return np.ones((n, 1))
    return np.polynomial.chebyshev.chebvander(np.linspace(-1.0, 1.0, n), n - 1)[:, 1:]
""", what=("ret",))
    for k, vals in (("OccupationBasis", (1, 0)), ("ChebyshevBasis", (0, 1))):
        for n, v in zip(("match_value", "mismatch_value"), vals):
            c.refine(f"{B}{k}.{n}", f"def {n}(self):\n    return {v}\n", what=("ret",))
    c.refine(B + "ChebyshevBasis.uses_state_indices", "def uses_state_indices(self):\n    return True\n", what=("ret",))
    c.refine(B + "BasisFunction.uses_state_indices", "def uses_state_indices(self):\n    return False\n", what=("ret",))


def width(c):
    """Numbers are kept at full width."""
    c.full_width(["kmcpy.models.local_cluster_expansion.LocalClusterExpansion." + x for x in ("compute", "get_occ_corr_from_structure")])


OBLIGATIONS = [features, value, binding, fitted, identity, build, encoding, width]
