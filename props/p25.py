TITLE = "A structure and its occupation describe the same configuration"
LM = "kmcpy.structure.lattice_structure."
L = LM + "LatticeStructure"
SP = "kmcpy.structure.species."
AO = "kmcpy.structure.active_site_order."
ASO = AO + "ActiveSiteOrder"
ST = "kmcpy.structure.sites."
SV = "kmcpy.structure.basis.BasisFunction.state_value"
MISS, OCC, INF = L + "._missing_occupation_value", L + ".occupation_value_for_species", L + "._infer_structure_site_mapping"
SFO = L + ".species_for_occupation_value"


def species(c):
    """Species are compared by their label and element; every vacancy label means the vacancy."""
    V, N, T = SP + "is_vacancy_species", SP + "normalize_species", SP + "species_tokens"
    c.refine(V, """
def is_vacancy_species(specie):
    if isinstance(specie, str):
        return specie in ("X", "Vacancy", "vacancy", "Va", "VA")
    return getattr(specie, "symbol", None) in ("X", "Vacancy", "vacancy", "Va", "VA")
""", what=("ret",))
    c.refine(N, """
def normalize_species(value):
    if is_vacancy_species(value):
        return DummySpecies("X", 0)
    if isinstance(value, str):
        return Species(value)
    return value
""", what=("ret",), opaque={V})
    c.refine(T, """
def species_tokens(specie):
    if is_vacancy_species(specie):
        return {"X", "Vacancy"}
    out = {str(specie)}
    if getattr(specie, "symbol", None) is not None:
        out.add(str(getattr(specie, "symbol", None)))
    if getattr(specie, "element", None) is not None:
        out.add(str(getattr(specie, "element", None)))
    return out
""", what=("ret",), opaque={V})
    c.refine(SP + "species_label", """
def species_label(specie):
    if is_vacancy_species(specie):
        return "X"
    if isinstance(specie, str):
        return specie
    if getattr(specie, "symbol", None) is not None:
        return str(getattr(specie, "symbol", None))
    return str(specie)
""", what=("ret",), opaque={V})
    c.refine(SP + "species_equivalent", """
def species_equivalent(left, right):
    return bool(species_tokens(left).intersection(species_tokens(right)))
""", what=("ret",), opaque={T}, alts=("""
def species_equivalent(left, right):
    return not species_tokens(left).isdisjoint(species_tokens(right))
""", """
def species_equivalent(left, right):
    return any(t in species_tokens(right) for t in species_tokens(left))
"""))
    c.refine(L + "._species_matches", "def _species_matches(actual, expected):\n    return species_equivalent(actual, expected)\n",
             what=("ret",), opaque={SP + "species_equivalent"})
    c.refine(L + "._is_vacancy_species", "def _is_vacancy_species(specie):\n    return is_vacancy_species(specie)\n", what=("ret",),
             opaque={V})


def states(c):
    """A species and its occupation value determine each other at every site; a missing atom is the vacancy."""
    VAC, MATCH = L + "._is_vacancy_species", L + "._species_matches"
    c.refine(MISS, """
def _missing_occupation_value(self, allowed_species):
    if not allowed_species:
        return self.basis.mismatch_value
    for k, s in enumerate(allowed_species):
        if self._is_vacancy_species(s):
            return self.basis.state_value(k, len(allowed_species))
    return self.basis.state_value(1 if len(allowed_species) > 1 else 0, len(allowed_species))
""", what=("ret", "raise"), opaque={VAC, SV})
    c.refine(OCC, """
def occupation_value_for_species(self, site_index, specie, allowed_species=None):
    if allowed_species is None:
        allowed_species = self.allowed_species[int(site_index)]
    if not allowed_species:
        raise ValueError("none allowed")
    for k, s in enumerate(allowed_species):
        if str(s) == str(specie):
            return self.basis.state_value(k, len(allowed_species))
    for k, s in enumerate(allowed_species):
        if self._species_matches(specie, s):
            return self.basis.state_value(k, len(allowed_species))
    raise ValueError("not allowed")
""", what=("ret", "raise"), opaque={MATCH, SV})
    c.refine(SFO, """
def species_for_occupation_value(self, site_index, value):
    allowed = self.allowed_species[int(site_index)]
    if not allowed:
        raise ValueError("none allowed")
    for k, s in enumerate(allowed):
        if value == self.basis.state_value(k, len(allowed)):
            return s
    raise ValueError("value")
""", what=("ret", "raise"), opaque={SV})


def forward(c):
    """Each atom sets the value of the one template site it sits on; anything that does not fit is refused."""
    c.refine(L + ".get_occ_from_structure", """
def get_occ_from_structure(self, structure, tol=0.1, angle_tol=5, sc_matrix=None, structure_site_mapping=None):
    if sc_matrix is None:
        base = self.template_structure.lattice.matrix
        cell = structure.lattice.matrix
        try:
            sc_matrix = np.round(cell @ np.linalg.inv(base)).astype(int)
            if not np.allclose(sc_matrix @ base, cell, rtol=min(tol, 0.01), atol=min(tol, 0.01)):
                raise ValueError("no supercell")
        except np.linalg.LinAlgError:
            raise ValueError("singular")
    sup = self.template_structure.copy()
    sup.add_site_property("_kmcpy_template_index", list(range(len(sup))))
    sup.make_supercell(sc_matrix)
    allowed = [self.allowed_species[int(k)] for k in sup.site_properties["_kmcpy_template_index"]]
    occ = np.array([self._missing_occupation_value(s) for s in allowed], dtype=type(self.basis.match_value))
    if len(structure) == 0:
        return Occupation(occ, basis=self.basis, validate=False)
    if not np.allclose(sup.lattice.matrix, structure.lattice.matrix, rtol=tol, atol=tol):
        raise ValueError("lattice")
    if structure_site_mapping is None:
        where = self._infer_structure_site_mapping(sup, structure, tol=tol)
    else:
        where = np.array(structure_site_mapping, dtype=int)
        if len(where) != len(structure):
            raise ValueError("length")
        if len(where) > 0 and (np.min(where) < 0 or np.max(where) >= len(sup)):
            raise ValueError("range")
    if len(set(where.tolist())) != len(where):
        raise ValueError("two atoms on a site")
    for k, site in enumerate(where):
        site = int(site)
        if not allowed[site]:
            raise ValueError("none allowed")
        try:
            occ[site] = self.occupation_value_for_species(site, structure[k].specie, allowed_species=allowed[site])
        except ValueError:
            raise ValueError("species") from None
    return Occupation(occ, basis=self.basis, validate=False)
""", what=("ret", "raise"), calls=(".make_supercell",), opaque={MISS, OCC, INF, "kmcpy.structure.basis.Occupation.__init__"})
    c.refine(INF, """
def _infer_structure_site_mapping(supercell_template, structure, tol):
    d = supercell_template.frac_coords[:, None, :] - structure.frac_coords[None, :, :]
    d -= np.round(d)
    r = np.linalg.norm(d, axis=2)
    near = np.min(r, axis=0)
    if np.any(near > tol):
        raise ValueError("too far")
    return np.argmin(r, axis=0)
""", what=("ret", "raise"))


def template(c):
    """Every template site gets the species its own entry allows, also in a supercell."""
    c.refine(L + ".__init__", """
def __init__(self, template_structure, site_mapping, basis_type="chebyshev"):
    self.template_structure = template_structure
    self.site_mapping = {normalize_species(k): [normalize_species(x) for x in (v if isinstance(v, (list, tuple)) else [v])]
                         for k, v in site_mapping.items()}
    self.allowed_species = []
    for site in self.template_structure:
        found = None
        for k, v in self.site_mapping.items():
            if species_equivalent(site.specie, k):
                found = v
                break
        self.allowed_species.append(found)
    if len(self.allowed_species) != len(self.template_structure):
        raise ValueError("length")
    most = max(2, max(len(s) for s in self.allowed_species if s))
    try:
        if basis_type == "chebyshev":
            self.basis = get_basis(basis_type, max_states=most)
        else:
            self.basis = get_basis(basis_type)
        self.basis_type = basis_type
    except ValueError as e:
        raise ValueError("basis")
    try:
        self.active_site_order = self.get_active_site_order()
    except ValueError:
        self.active_site_order = None
""", what=("state",), places=("template_structure", "site_mapping", "allowed_species", "basis", "basis_type"),
             opaque={SP + "normalize_species", SP + "species_equivalent", "kmcpy.structure.basis.get_basis", L + ".get_active_site_order"})
    c.refine(L + ".make_supercell", """
def make_supercell(self, sc_matrix):
    self.template_structure.add_site_property("_kmcpy_template_index", list(range(len(self.template_structure))))
    self.template_structure.make_supercell(sc_matrix)
    idx = self.template_structure.site_properties["_kmcpy_template_index"]
    self.template_structure.remove_site_property("_kmcpy_template_index")
    self.allowed_species = [self.allowed_species[int(k)] for k in idx]
    if len(self.allowed_species) != len(self.template_structure):
        raise ValueError("length")
""", what=("state",), places=("allowed_species",), calls=(".make_supercell",))
    c.refine(L + ".copy", """
def copy(self):
    return LatticeStructure(self.template_structure.copy(), self.site_mapping.copy(), self.basis_type)
""", what=("ret", "state"), opaque={L + ".__init__"})


def backward(c):
    """The structure of an occupation has, at every occupied site, the species of its value, and no atom at vacancies."""
    c.refine(L + ".get_structure_from_occ", """
def get_structure_from_occ(self, occ, sc_matrix=None):
    m = np.eye(3, dtype=int) if sc_matrix is None else np.array(sc_matrix, dtype=int)
    sup = self.copy()
    sup.make_supercell(m)
    if len(occ) != len(sup.template_structure):
        raise ValueError("length")
    new = sup.copy()
    for i, site in enumerate(new.template_structure):
        site.species = new.species_for_occupation_value(i, occ[i])
    gone = []
    for i, site in enumerate(new.template_structure):
        if is_vacancy_species(site.specie):
            gone.append(i)
    for i in reversed(gone):
        new.template_structure.remove_sites([i])
    return new.template_structure
""", what=("ret", "raise"), calls=(SFO, ".remove_sites", ".make_supercell"), stores=("species",),
             opaque={SFO, L + ".copy", L + ".make_supercell", SP + "is_vacancy_species"}, alts=("""
def get_structure_from_occ(self, occ, sc_matrix=None):
    m = np.eye(3, dtype=int) if sc_matrix is None else np.array(sc_matrix, dtype=int)
    sup = self.copy()
    sup.make_supercell(m)
    if len(occ) != len(sup.template_structure):
        raise ValueError("length")
    new = sup.copy()
    for i, site in enumerate(new.template_structure):
        site.species = new.species_for_occupation_value(i, occ[i])
    new.template_structure.remove_sites([i for i, site in enumerate(new.template_structure) if is_vacancy_species(site.specie)])
    return new.template_structure
""",))


def active(c):
    """Active sites are picked by position in the active order; an atom elsewhere or a doubly used site is refused."""
    c.refine(ASO + ".filter_active_structure", """
def filter_active_structure(self, structure, tol=1e-2):
    if len(structure) == self.active_site_count and ACTIVE_SITE_PROPERTY in structure.site_properties:
        return structure.copy()
    if len(structure) == self.original_site_count:
        out = type(structure).from_sites([structure[k] for k in self.active_to_original])
        out.add_site_property(ACTIVE_SITE_PROPERTY, list(range(self.active_site_count)))
        return out
    full = self.full_structure_with_properties()
    lookup = self.original_to_active
    kept = {}
    for site in structure:
        d = full.lattice.get_all_distances(np.array([site.frac_coords]), full.frac_coords)[0]
        k = int(np.argmin(d))
        if float(d[k]) > tol:
            raise ValueError("position")
        a = lookup.get(k)
        if a is None:
            continue
        if a in kept:
            raise ValueError("twice")
        kept[a] = site
    out = type(structure).from_sites([kept[a] for a in sorted(kept)])
    out.add_site_property(ACTIVE_SITE_PROPERTY, sorted(kept))
    return out
""", what=("ret", "raise"), opaque={ASO + ".full_structure_with_properties", ASO + ".original_to_active"})
    c.refine(ASO + ".full_structure_with_properties", """
def full_structure_with_properties(self):
    if self.template_structure is None:
        raise ValueError("metadata only")
    return _make_supercell_with_properties(template_structure=self.template_structure, primitive_active_lookup=self.primitive_to_active,
                                           supercell_shape=self.supercell_shape)
""", what=("ret", "raise"), opaque={AO + "_make_supercell_with_properties", ASO + ".primitive_to_active"})


def supercell(c):
    """A kMC supercell repeats every site once per translation and labels it with its own image."""
    c.refine(ST + "structure_from_sites", """
def structure_from_sites(sites, charge=None, validate_proximity=False, to_unit_cell=False, properties=None):
    if len(sites) < 1:
        raise ValueError("none")
    keys = []
    props = {k: list(v) for k, v in (properties or {}).items()}
    lattice = sites[0].lattice
    for i, site in enumerate(sites):
        if site.lattice != lattice:
            raise ValueError("lattice")
        for k, v in site.properties.items():
            if k not in keys:
                keys.append(k)
                props[k] = [None] * len(sites)
            props[k][i] = v
    return Structure(lattice, [s.species for s in sites], [s.frac_coords for s in sites], charge=charge, site_properties=props,
                     validate_proximity=validate_proximity, to_unit_cell=to_unit_cell)
""", what=("ret", "raise"))
    c.refine(ST + "make_kmc_supercell", """
def make_kmc_supercell(structure, scaling_matrix=(1, 2, 3), to_unit_cell=True):
    m = np.array(scaling_matrix, int)
    if m.shape != (3, 3):
        m = np.array(m * np.eye(3), int)
    lattice = Lattice(np.dot(m, structure.lattice.matrix))
    new = []
    for site in structure:
        for t in lattice_points_in_supercell(m):
            p = site.properties.copy()
            p["supercell"] = tuple(int(x) for x in np.rint(np.dot(t, m)).astype(int))
            new.append(PeriodicSite(site.species, site.coords + lattice.get_cartesian_coords(t), lattice, properties=p,
                                    coords_are_cartesian=True, to_unit_cell=True, skip_checks=True))
    q = getattr(structure, "charge", None)
    out = structure_from_sites(new, charge=q * np.linalg.det(m) if q else None, to_unit_cell=to_unit_cell)
    if to_unit_cell:
        for site in out:
            site.to_unit_cell(in_place=True)
    return out
""", what=("ret", "raise"), opaque={ST + "structure_from_sites"})
    c.refine(ST + "site_index_key", """
def site_index_key(supercell=(1, 2, 3), label="Na2", local_index=2):
    return (int(supercell[0]), int(supercell[1]), int(supercell[2]), label, int(local_index))
""", what=("ret",))
    c.refine(ST + "build_site_index", """
def build_site_index(structure, skip_check=True):
    for k in ("supercell", "label", "local_index"):
        if k not in structure.site_properties:
            raise KeyError(k)
    out = {}
    for i, site in enumerate(structure):
        key = site_index_key(supercell=site.properties["supercell"], label=site.properties["label"],
                             local_index=site.properties["local_index"])
        if not skip_check and key in out:
            raise KeyError("twice")
        out[key] = i
    return out
""", what=("ret", "raise"), opaque={ST + "site_index_key"})


OBLIGATIONS = [species, states, forward, template, backward, active, supercell]
