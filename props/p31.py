TITLE = "Enumerated environments and hop endpoints are the ones asked for"
M = "kmcpy.structure.local_environment_enumerator."
LS = "kmcpy.structure.lattice_structure.LatticeStructure"
AO = "kmcpy.structure.active_site_order.ActiveSiteOrder"
LO = "kmcpy.structure.local_site_order.LocalSiteOrder"
CTX, LOC, BASE, RES, CAN, TRA, ALW, MAT, BLD, SFA, PER, OCCV, SPV, MOB, FROM, FIRST, ORD, LAB, SBS, DIS, PART, EQV, TOK, ENUM, PAIR = (M + x for x in (
    "_active_lattice_context", "_local_site_indices", "_base_occupation", "_resolve_variable_site_indices", "_canonical_counts",
    "_enumerate_with_transformation", "_allowed_choices", "_matches_counts", "_build_enumeration", "_structure_from_active_occupation",
    "_periodic_site_from_site", "_occupation_value_for_species", "_species_for_occupation", "_mobile_ion_indices",
    "_occupation_from_local_environment_enumeration", "_first_allowed_species", "_ordered_endpoint_structures", "_environment_label",
    "_species_by_site", "_build_disordered_structure", "_partial_species_entry", "_species_equivalent", "_species_matches_token",
    "enumerate_local_environments", "generate_neb_endpoint_pair"))
SPF, OVF, VAC, SLAB, STOK = (LS + ".species_for_occupation_value", LS + ".occupation_value_for_species",
                             "kmcpy.structure.species.is_vacancy_species", "kmcpy.structure.species.species_label",
                             "kmcpy.structure.species.species_tokens")
OC = "kmcpy.structure.basis.Occupation"
LEAF = {SPF, OVF, VAC, SLAB, STOK}


def choices(c):
    """Which sites vary and over which species."""
    c.refine(ALW, """
def _allowed_choices(lattice_structure, site_index, variable_species=None):
    if site_index < 0 or site_index >= len(lattice_structure.template_structure):
        raise IndexError("range")
    allowed = lattice_structure.allowed_species[site_index]
    if not allowed:
        raise ValueError("none")
    out = tuple(s for s in allowed if variable_species is None or any(_species_matches_token(s, t) for t in variable_species))
    if not out:
        raise ValueError("none")
    return out
""", what=("ret", "raise"), opaque={TOK})
    c.refine(TOK, "def _species_matches_token(specie, token):\n    return species_label(token) in species_tokens(specie)\n", what=("ret",),
             opaque=LEAF)
    c.refine(EQV, """
def _species_equivalent(left, right):
    return any(_species_matches_token(left, t) for t in species_tokens(right))
""", what=("ret",), opaque=LEAF | {TOK})
    c.refine(RES, """
def _resolve_variable_site_indices(lattice_structure, local_site_indices, variable_site_indices, variable_species):
    if variable_site_indices is not None:
        out = tuple(dict.fromkeys(int(k) for k in variable_site_indices))
        if [k for k in out if k not in set(local_site_indices)]:
            raise ValueError("outside")
        for k in out:
            _allowed_choices(lattice_structure, k, variable_species)
        return out
    out = []
    for k in dict.fromkeys(local_site_indices):
        allowed = lattice_structure.allowed_species[k]
        if allowed is None or len(allowed) <= 1:
            continue
        try:
            found = _allowed_choices(lattice_structure, k, variable_species)
        except ValueError as exc:
            if variable_species is not None and "No variable species" in str(exc):
                continue
            raise
        if len(found) > 1:
            out.append(k)
    return tuple(out)
""", what=("ret", "raise"), calls=(ALW,), opaque={ALW})
    c.refine(CAN, """
def _canonical_counts(species_counts):
    if species_counts is None:
        return None
    return {species_label(k): int(n) for k, n in species_counts.items()}
""", what=("ret",), opaque=LEAF)
    c.refine(MAT, """
def _matches_counts(species_by_site, species_counts):
    return True if species_counts is None else Counter(species_by_site.values()) == Counter(species_counts)
""", what=("ret",))
    c.refine(BASE, """
def _base_occupation(lattice_structure, active_site_order, base_structure, tol, angle_tol):
    if base_structure is not None:
        return lattice_structure.get_occ_from_structure(active_site_order.filter_active_structure(base_structure, tol=tol), tol=tol,
                                                        angle_tol=angle_tol)
    return Occupation(np.full(len(lattice_structure.template_structure), lattice_structure.basis.match_value,
                              dtype=type(lattice_structure.basis.match_value)), basis=lattice_structure.basis, validate=False)
""", what=("ret", "raise"), opaque={LS + ".get_occ_from_structure", AO + ".filter_active_structure", OC + ".__init__"})
    c.refine(LOC, """
def _local_site_indices(lattice_structure, center, cutoff, exclude_species, local_site_order, exclude_center_site):
    s = lattice_structure.template_structure.copy()
    s.remove_oxidation_states()
    order = LocalSiteOrder.resolve(local_site_order)
    if exclude_center_site is not None:
        order = order.with_exclude_center_site(exclude_center_site)
    if isinstance(center, int):
        middle = s[center]
        index = center
    elif isinstance(center, (list, tuple, np.ndarray)):
        middle = PeriodicSite(species=DummySpecies("X"), coords=center, coords_are_cartesian=False, lattice=s.lattice.copy())
        index = None
    else:
        raise ValueError("center")
    excluded = set(_normalize_exclude_species(exclude_species))
    near = s.get_sites_in_sphere(middle.coords, cutoff, include_index=True)
    if excluded:
        near = [x for x in near if x[0].species_string not in excluded and str(x[0].specie) not in excluded]
    if order.exclude_center_site:
        near = [x for x in near if not _is_center_site(x, middle, index, order)]
    return tuple(int(x[2]) for x in order.sort_local_env_sites(near))
""", what=("ret", "raise"), calls=(".remove_oxidation_states",), opaque={LO + ".resolve", LO + ".with_exclude_center_site", LO + ".sort_local_env_sites",
                                     M + "_normalize_exclude_species", M + "_is_center_site"})
    c.refine(M + "_is_center_site", """
def _is_center_site(site_info, center_site, center_index, order):
    if center_index is not None and int(site_info[2]) == int(center_index):
        return True
    return np.linalg.norm(site_info[0].coords - center_site.coords) <= order.center_match_tolerance
""", what=("ret",))


def enumeration(c):
    """One result per assignment that has the counts asked for, in order, up to the limit."""
    c.refine(ENUM, """
def enumerate_local_environments(lattice_structure, center, cutoff, species_counts=None, variable_species=None,
                                 variable_site_indices=None, exclude_species=None, local_site_order=None, exclude_center_site=None,
                                 base_structure=None, transformation=None, return_ranked_list=True, max_results=10000, tol=0.1,
                                 angle_tol=5):
    if max_results < 1:
        raise ValueError("max_results")
    if exclude_species:
        raise ValueError("exclude_species")
    active, order = _active_lattice_context(lattice_structure)
    local = _local_site_indices(active, center=center, cutoff=cutoff, exclude_species=None, local_site_order=local_site_order,
                                exclude_center_site=exclude_center_site)
    start = _base_occupation(active, order, base_structure, tol, angle_tol)
    sites = _resolve_variable_site_indices(active, local, variable_site_indices, variable_species)
    counts = _canonical_counts(species_counts)
    if counts is not None and sum(counts.values()) != len(sites):
        raise ValueError("counts")
    if transformation is not None:
        return _enumerate_with_transformation(
            lattice_structure=lattice_structure, active_lattice_structure=active, active_site_order=order, base_occupation=start,
            local_site_indices=local, variable_site_indices=sites, variable_species=variable_species, species_counts=counts,
            transformation=transformation, return_ranked_list=return_ranked_list, max_results=max_results, tol=tol,
            angle_tol=angle_tol)
    table = {k: _allowed_choices(active, k, variable_species=variable_species) for k in sites}
    out = []
    for pick in product(*(table[k] for k in sites)):
        named = {k: species_label(s) for k, s in zip(sites, pick)}
        if not _matches_counts(named, counts):
            continue
        occ = start.copy()
        for k, s in zip(sites, pick):
            occ[k] = active.occupation_value_for_species(k, s)
        out.append(_build_enumeration(
            lattice_structure=lattice_structure, active_lattice_structure=active, active_site_order=order, occupation=occ,
            local_site_indices=local, variable_site_indices=sites, species_by_site=named,
            metadata={"source": "cartesian_product"}))
        if len(out) >= max_results:
            break
    return out
""", what=("ret", "raise"), opaque=LEAF | {CTX, LOC, BASE, RES, CAN, TRA, ALW, MAT, BLD, OC + ".__setitem__", OC + ".copy"})
    c.refine(BLD, """
def _build_enumeration(lattice_structure, active_lattice_structure, active_site_order, occupation, local_site_indices,
                       variable_site_indices, species_by_site, metadata):
    return LocalEnvironmentEnumeration(
        structure=_structure_from_active_occupation(lattice_structure, active_lattice_structure, active_site_order, occupation),
        full_occupation=occupation, local_occupation=occupation[list(local_site_indices)], local_site_indices=local_site_indices,
        variable_site_indices=variable_site_indices, species_by_site=dict(species_by_site), label=_environment_label(species_by_site),
        metadata=metadata)
""", what=("ret",), opaque={SFA, LAB, OC + ".__getitem__"})
    c.refine(LAB, """
def _environment_label(species_by_site):
    if not species_by_site:
        return "base"
    return "|".join(f"{k}:{species_by_site[k]}" for k in sorted(species_by_site))
""", what=("ret",))
    c.refine(SBS, """
def _species_by_site(lattice_structure, occupation, site_indices):
    return {int(k): species_label(lattice_structure.species_for_occupation_value(int(k), occupation[int(k)])) for k in site_indices}
""", what=("ret",), opaque=LEAF | {OC + ".__getitem__"})
    c.refine(TRA, """
def _enumerate_with_transformation(lattice_structure, active_lattice_structure, active_site_order, base_occupation, local_site_indices,
                                   variable_site_indices, variable_species, species_counts, transformation, return_ranked_list,
                                   max_results, tol, angle_tol):
    start = _build_disordered_structure(active_lattice_structure, base_occupation, variable_site_indices, variable_species)
    if isinstance(return_ranked_list, int) and not isinstance(return_ranked_list, bool):
        n = return_ranked_list
    else:
        n = max_results if return_ranked_list else False
    out = []
    for s, extra in _iter_transformed_structures(transformation.apply_transformation(start, return_ranked_list=n)):
        occ = active_lattice_structure.get_occ_from_structure(s, tol=tol, angle_tol=angle_tol)
        named = _species_by_site(active_lattice_structure, occ, variable_site_indices)
        if not _matches_counts(named, species_counts):
            continue
        meta = {"source": "transformation"}
        meta.update(extra)
        out.append(_build_enumeration(
            lattice_structure=lattice_structure, active_lattice_structure=active_lattice_structure,
            active_site_order=active_site_order, occupation=occ, local_site_indices=local_site_indices,
            variable_site_indices=variable_site_indices, species_by_site=named, metadata=meta))
        if len(out) >= max_results:
            break
    return out
""", what=("ret", "raise"), opaque={DIS, LS + ".get_occ_from_structure", SBS, MAT, BLD, M + "_iter_transformed_structures"})
    c.refine(DIS, """
def _build_disordered_structure(lattice_structure, base_occupation, variable_site_indices, variable_species):
    species = []
    coords = []
    for k, t in enumerate(lattice_structure.template_structure):
        if k in set(variable_site_indices):
            e = _partial_species_entry(_allowed_choices(lattice_structure, k, variable_species=variable_species))
        else:
            e = lattice_structure.species_for_occupation_value(k, base_occupation[k])
            if is_vacancy_species(e):
                continue
        species.append(e)
        coords.append(t.frac_coords)
    return Structure(lattice_structure.template_structure.lattice, species, coords, coords_are_cartesian=False)
""", what=("ret", "raise"), opaque=LEAF | {PART, ALW, OC + ".__getitem__"})
    c.refine(PART, """
def _partial_species_entry(choices):
    real = [s for s in choices if not is_vacancy_species(s)]
    if not real:
        raise ValueError("vacancy")
    return {s: 1.0 / len(choices) for s in real}
""", what=("ret", "raise"), opaque=LEAF)


def structures(c):
    """Structures list the occupied sites in the full cell's order, fixed sites included."""
    c.refine(PER, """
def _periodic_site_from_site(template_site, specie):
    return PeriodicSite(species=specie, coords=template_site.frac_coords, lattice=template_site.lattice, coords_are_cartesian=False,
                        properties=dict(template_site.properties))
""", what=("ret",))
    c.refine(SFA, """
def _structure_from_active_occupation(lattice_structure, active_lattice_structure, active_site_order, occupation):
    sites = []
    for k, t in enumerate(active_site_order.full_structure_with_properties()):
        a = active_site_order.original_to_active.get(k)
        if a is None:
            sites.append(_periodic_site_from_site(t, t.specie))
            continue
        s = active_lattice_structure.species_for_occupation_value(a, occupation[a])
        if is_vacancy_species(s):
            continue
        sites.append(_periodic_site_from_site(t, s))
    return Structure.from_sites(sites)
""", what=("ret", "raise"), opaque=LEAF | {PER, AO + ".full_structure_with_properties", AO + ".original_to_active",
                                            OC + ".__getitem__"})


def endpoints(c):
    """The endpoints of a hop differ by the one ion that moves from a full to an empty site; atom k is the same ion in both."""
    c.refine(MOB, """
def _mobile_ion_indices(mobile_ion_indices):
    pair = getattr(mobile_ion_indices, "mobile_ion_indices", mobile_ion_indices)
    if len(pair) != 2:
        raise ValueError("pair")
    return int(pair[0]), int(pair[1])
""", what=("ret", "raise"))
    c.refine(FIRST, """
def _first_allowed_species(lattice_structure, site_index):
    if not lattice_structure.allowed_species[site_index]:
        raise ValueError("none")
    return lattice_structure.allowed_species[site_index][0]
""", what=("ret", "raise"))
    c.refine(FROM, """
def _occupation_from_local_environment_enumeration(local_environment_enumeration, lattice_structure, active_site_order):
    e = local_environment_enumeration
    if isinstance(e, LocalEnvironmentEnumeration):
        return e.full_occupation.copy()
    if isinstance(e, Occupation):
        return Occupation(active_site_order.select_active_values(e.data), basis=lattice_structure.basis, validate=True)
    return Occupation(active_site_order.select_active_values(e), basis=lattice_structure.basis, validate=True)
""", what=("ret", "raise"), opaque={OC + ".__init__", OC + ".copy", OC + ".data", AO + ".select_active_values"})
    c.refine(PAIR, """
def generate_neb_endpoint_pair(lattice_structure, local_environment_enumeration, mobile_ion_indices):
    def empty(active, k):
        for s in active.allowed_species[k]:
            if is_vacancy_species(s):
                return active.occupation_value_for_species(k, s)
        raise ValueError("no vacancy")
    active, order = _active_lattice_context(lattice_structure)
    a, b = _mobile_ion_indices(mobile_ion_indices)
    order.validate_active_indices((a, b), field_name="mobile_ion_indices")
    if a == b:
        raise ValueError("distinct")
    occ = _occupation_from_local_environment_enumeration(local_environment_enumeration, active, order)
    if len(occ) != order.active_site_count:
        raise ValueError("length")
    x = _first_allowed_species(active, a)
    y = _first_allowed_species(active, b)
    if is_vacancy_species(x) or is_vacancy_species(y):
        raise ValueError("vacancy")
    if not _species_equivalent(x, y):
        raise ValueError("species")
    first = occ.copy()
    first[a] = active.basis.match_value
    first[b] = empty(active, b)
    last = first.copy()
    last[a] = empty(active, a)
    last[b] = active.basis.match_value
    s, t = _ordered_endpoint_structures(lattice_structure, active, order, first, last, a, b)
    return NEBEndpointPair(initial=s, final=t, initial_occupation=first, final_occupation=last, mobile_ion_indices=(a, b),
                           metadata={"mobile_ion_indices": (a, b)})
""", what=("ret", "raise"), opaque=LEAF | {CTX, MOB, FROM, FIRST, EQV, ORD, AO + ".validate_active_indices", AO + ".active_site_count",
                                            OC + ".copy", OC + ".__setitem__"}, calls=(AO + ".validate_active_indices",))
    c.refine(ORD, """
def _ordered_endpoint_structures(lattice_structure, active_lattice_structure, active_site_order, initial_occupation, final_occupation,
                                 from_site, to_site):
    full = active_site_order.full_structure_with_properties()
    where = active_site_order.original_to_active
    target = active_site_order.active_to_original[to_site]
    first = []
    last = []
    for k, t in enumerate(full):
        a = where.get(k)
        if a is None:
            first.append(_periodic_site_from_site(t, t.specie))
            last.append(_periodic_site_from_site(t, t.specie))
            continue
        s = active_lattice_structure.species_for_occupation_value(a, initial_occupation[a])
        if is_vacancy_species(s):
            continue
        first.append(_periodic_site_from_site(t, s))
        if a == from_site:
            u = full[target]
            s2 = active_lattice_structure.species_for_occupation_value(to_site, final_occupation[to_site])
        else:
            u = t
            s2 = active_lattice_structure.species_for_occupation_value(a, final_occupation[a])
        if is_vacancy_species(s2):
            raise ValueError("lost")
        last.append(_periodic_site_from_site(u, s2))
    if len(first) != len(last):
        raise ValueError("count")
    return Structure.from_sites(first), Structure.from_sites(last)
""", what=("ret", "raise"), opaque=LEAF | {PER, AO + ".full_structure_with_properties", AO + ".original_to_active",
                                            AO + ".active_to_original", OC + ".__getitem__"})
    c.refine(M + "enumerate_neb_endpoint_pairs", """
def enumerate_neb_endpoint_pairs(lattice_structure, mobile_ion_indices, cutoff, center=None, species_counts=None, variable_species=None,
                                 variable_site_indices=None, exclude_species=None, local_site_order=None, exclude_center_site=None,
                                 base_structure=None, transformation=None, return_ranked_list=True, max_results=10000, tol=0.1,
                                 angle_tol=5):
    hop = _mobile_ion_indices(mobile_ion_indices)
    found = enumerate_local_environments(
        lattice_structure=lattice_structure, center=hop[0] if center is None else center, cutoff=cutoff,
        species_counts=species_counts, variable_species=variable_species, variable_site_indices=variable_site_indices,
        exclude_species=exclude_species, local_site_order=local_site_order, exclude_center_site=exclude_center_site,
        base_structure=base_structure, transformation=transformation, return_ranked_list=return_ranked_list, max_results=max_results,
        tol=tol, angle_tol=angle_tol)
    out = []
    for k, e in enumerate(found):
        p = generate_neb_endpoint_pair(lattice_structure, e, hop)
        out.append(replace(p, metadata={
            **p.metadata, "local_environment_index": k, "local_environment_label": e.label,
            "local_site_indices": e.local_site_indices, "variable_site_indices": e.variable_site_indices,
            "species_by_site": dict(e.species_by_site), "enumeration": dict(e.metadata)}))
    return out
""", what=("ret", "raise"), opaque={MOB, ENUM, PAIR})


OBLIGATIONS = [choices, enumeration, structures, endpoints]
