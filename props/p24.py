TITLE = "The event library lists exactly the hops the structure offers"
G = "kmcpy.event.generators."
EG = G + "EventGenerator"
NB = "kmcpy.structure.neighbors."
LLS = "kmcpy.structure.local_lattice_structure.LocalLatticeStructure"
CL = "kmcpy.structure.cluster."
EL = "kmcpy.event.base.EventLib"
AO = "kmcpy.structure.active_site_order.ActiveSiteOrder"
ST = "kmcpy.structure.sites."
SPM, LBM, TOL, FLAT, MV = (EG + x for x in ("._site_matches_species_identifier", "._site_matches_label_identifier",
                                            "._to_identifier_list", "._flatten_identifier_tokens", "._mapping_values"))
VAR, KIND, MOB = (EG + x for x in ("._species_token_variants", "._infer_site_selection_kind", "._mobile_species_from_site_mapping"))
NORM, REG, EXP, VALID, UNI, SIG = (EG + x for x in (
    "._normalize_generate_events_inputs", "._match_or_register_local_environment", "._export_reference_local_environment",
    "._is_valid_target_site", "._build_uniform_cutoff_dict", "._neighbor_species_signature"))
FIND, WRAP = G + "find_atom_indices", G + "normalize_supercell_tuple"


def identifiers(c):
    """Which sites an identifier selects."""
    c.refine(TOL, """
def _to_identifier_list(identifier):
    if isinstance(identifier, str):
        return [identifier]
    if isinstance(identifier, Iterable):
        return [str(v) for v in identifier]
    return [str(identifier)]
""", what=("ret",))
    c.refine(FLAT, """
def _flatten_identifier_tokens(cls, identifier):
    if isinstance(identifier, str):
        return [identifier]
    if isinstance(identifier, Iterable):
        out = []
        for v in identifier:
            out.extend(cls._flatten_identifier_tokens(v))
        return out
    return [str(identifier)]
""", what=("ret",), opaque={FLAT}, alts=("""
def _flatten_identifier_tokens(cls, identifier):
    if isinstance(identifier, str):
        return [identifier]
    if isinstance(identifier, Iterable):
        return [t for v in identifier for t in cls._flatten_identifier_tokens(v)]
    return [str(identifier)]
""",))
    c.refine(MV, """
def _mapping_values(value):
    if isinstance(value, (list, tuple, set)):
        return [str(v) for v in value]
    return [str(value)]
""", what=("ret",))
    c.refine(MOB, """
def _mobile_species_from_site_mapping(cls, site_mapping):
    out = [str(s) for s, allowed in site_mapping.items()
           if any(t.upper() in ("X", "VA", "VACANCY") for t in cls._mapping_values(allowed))]
    if not out:
        raise ValueError("no mobile species")
    return out
""", what=("ret", "raise"), opaque={MV})
    c.refine(KIND, """
def _infer_site_selection_kind(cls, mobile_ion_identifiers, mobile_species):
    tokens = cls._flatten_identifier_tokens(mobile_ion_identifiers)
    known = {v for t in cls._flatten_identifier_tokens(mobile_species) for v in cls._species_token_variants(t)}
    if tokens and all(cls._species_token_variants(t) & known for t in tokens):
        return "species"
    return "label"
""", what=("ret",), opaque={FLAT, VAR})
    c.refine(SPM, """
def _site_matches_species_identifier(cls, site, identifier):
    names = set()
    if getattr(site, "species_string", None) is not None:
        names.add(str(getattr(site, "species_string", None)))
    if getattr(site, "specie", None) is not None:
        names.add(str(getattr(site, "specie", None)))
        if getattr(getattr(site, "specie", None), "symbol", None) is not None:
            names.add(str(getattr(getattr(site, "specie", None), "symbol", None)))
        if getattr(getattr(site, "specie", None), "element", None) is not None:
            names.add(str(getattr(getattr(site, "specie", None), "element", None)))
    for s in getattr(site, "species", {}).keys():
        names.add(str(s))
        if getattr(s, "symbol", None) is not None:
            names.add(str(getattr(s, "symbol", None)))
        if getattr(s, "element", None) is not None:
            names.add(str(getattr(s, "element", None)))
    return not names.isdisjoint(set(cls._to_identifier_list(identifier)))
""", what=("ret",), opaque={TOL})
    c.refine(LBM, """
def _site_matches_label_identifier(cls, site, identifier):
    return str(site.properties.get("label")) in cls._to_identifier_list(identifier)
""", what=("ret",), opaque={TOL}, alts=("""
def _site_matches_label_identifier(cls, site, identifier):
    return str(site.properties.get("label")) in set(cls._to_identifier_list(identifier))
""",))
    c.refine(FIND, """
def find_atom_indices(structure, site_selection_kind="species", atom_identifier="Li+"):
    if site_selection_kind == "species":
        return [k for k in range(len(structure)) if EventGenerator._site_matches_species_identifier(structure[k], atom_identifier)]
    if site_selection_kind == "label":
        return [k for k in range(len(structure)) if EventGenerator._site_matches_label_identifier(structure[k], atom_identifier)]
    raise ValueError("kind")
""", what=("ret", "raise"), opaque={SPM, LBM})
    c.refine(VALID, """
def _is_valid_target_site(self, site, site_selection_kind, target_identifier):
    if site_selection_kind == "species":
        return self._site_matches_species_identifier(site, target_identifier)
    if site_selection_kind == "label":
        return self._site_matches_label_identifier(site, target_identifier)
    raise ValueError("kind")
""", what=("ret", "raise"), opaque={SPM, LBM})


def inputs(c):
    """How the arguments of a generation are read; what is left out has its documented value."""
    c.refine(NORM, """
def _normalize_generate_events_inputs(self, mobile_ion_identifiers, distance_matrix_rtol, distance_matrix_atol, supercell_shape,
                                      local_env_cutoff_dict, mobile_species, site_mapping, local_env_cutoff, rtol, atol):
    if site_mapping is None:
        raise ValueError("site_mapping")
    species = mobile_species if mobile_species is not None else self._mobile_species_from_site_mapping(site_mapping)
    return (
        "species" if mobile_ion_identifiers is None else self._infer_site_selection_kind(mobile_ion_identifiers, species),
        (species, species) if mobile_ion_identifiers is None else mobile_ion_identifiers,
        rtol if rtol is not None else distance_matrix_rtol,
        atol if atol is not None else distance_matrix_atol,
        supercell_shape if supercell_shape is not None else [2, 1, 1],
        local_env_cutoff_dict,
        species,
        4.0 if local_env_cutoff is None and local_env_cutoff_dict is None else local_env_cutoff,
    )
""", what=("ret", "raise"), opaque={MOB, KIND})
    c.refine(UNI, """
def _build_uniform_cutoff_dict(cls, structure, mobile_species, local_env_cutoff):
    everything = sorted({s.species_string for s in structure})
    mobile = sorted({s.species_string for s in structure if cls._site_matches_species_identifier(s, mobile_species)})
    if not mobile:
        raise ValueError("no mobile species")
    return {(m, n): float(local_env_cutoff) for m in mobile for n in everything}
""", what=("ret", "raise"), opaque={SPM})


def neighbours(c):
    """Neighbours are the sites closer than their pair's cutoff, whichever way round the pair is given."""
    c.refine(NB + "prepare_cutoff_neighbor_lookup", """
def prepare_cutoff_neighbor_lookup(cutoff_dict):
    cutoff_dict = cutoff_dict or {}
    table = defaultdict(dict)
    far = 0.0
    for (a, b), d in cutoff_dict.items():
        table[a][b] = d
        table[b][a] = d
        far = max(float(d), far)
    return {"lookup_dict": table, "max_dist": far}
""", what=("ret",))
    c.refine(NB + "prepare_range_cutoff_neighbor_lookup", """
def prepare_range_cutoff_neighbor_lookup(cutoff_dict):
    cutoff_dict = cutoff_dict or {}
    hi = defaultdict(dict)
    lo = defaultdict(dict)
    far = 0.0
    near = 1e3
    for (a, b), (l, h) in cutoff_dict.items():
        hi[a][b] = h
        hi[b][a] = h
        lo[a][b] = l
        lo[b][a] = l
        far = max(float(h), far)
        near = min(float(l), near)
    return {"lookup_dict_max": hi, "lookup_dict_min": lo, "max_dist": far, "min_dist": near}
""", what=("ret",))
    INFO = """{"site": n, "image": NearNeighbors._get_image(structure, n), "weight": n.nn_distance,
                 "site_index": NearNeighbors._get_original_site(structure, n)}"""
    META = """
            if "wyckoff_sequence" in structure.site_properties:
                info["wyckoff_sequence"] = n.properties["wyckoff_sequence"]
                info["local_index"] = n.properties["local_index"]
                info["label"] = n.properties["label"]
                if "supercell" in structure.site_properties:
                    info["supercell"] = n.properties["supercell"]
            out.append(info)
    return out
"""
    c.refine(NB + "_neighbor_base_info", "def _neighbor_base_info(structure, neighbor):\n    n = neighbor\n    return " + INFO + "\n",
             what=("ret",))
    c.refine(NB + "get_cutoff_neighbor_info", """
def get_cutoff_neighbor_info(structure, n, cutoff_lookup):
    site = structure[n]
    out = []
    for n in structure.get_neighbors(site, cutoff_lookup["max_dist"]):
        if n.nn_distance < cutoff_lookup["lookup_dict"].get(site.species_string, {}).get(n.species_string, 0.0):
            info = """ + INFO + META, what=("ret",))
    c.refine(NB + "get_range_cutoff_neighbor_info", """
def get_range_cutoff_neighbor_info(structure, n, cutoff_lookup):
    site = structure[n]
    out = []
    for n in structure.get_neighbors(site, cutoff_lookup["max_dist"]):
        if (cutoff_lookup["lookup_dict_min"].get(site.species_string, {}).get(n.species_string, 0.0) < n.nn_distance
                < cutoff_lookup["lookup_dict_max"].get(site.species_string, {}).get(n.species_string, 0.0)):
            info = """ + INFO + META, what=("ret",))
    c.refine(LLS + ".sort_neighbor_info", """
def sort_neighbor_info(neighbor_info):
    order = LocalSiteOrder.from_name("nasicon_nat_commun_2022")
    return sorted(neighbor_info, key=lambda x: order._sort_key(x["site"]))
""", what=("ret",), opaque={"kmcpy.structure.local_site_order.LocalSiteOrder._sort_key",
                            "kmcpy.structure.local_site_order.LocalSiteOrder.from_name"})


def environments(c):
    """Environments of one composition share one site order: the first one's."""
    c.refine(SIG, """
def _neighbor_species_signature(neighbor_sequence):
    counts = {}
    for n in neighbor_sequence:
        counts[n["site"].species_string] = counts.get(n["site"].species_string, 0) + 1
    return tuple(sorted(counts.items(), key=lambda kv: kv[0]))
""", what=("ret",))
    c.refine(REG, """
def _match_or_register_local_environment(self, primitive_cell, migrating_ion_index, unsorted_neighbor_sequence,
                                         reference_local_env_dict, local_env_info_dict, distance_matrix_rtol,
                                         distance_matrix_atol, find_nearest_if_fail):
    kind = self._neighbor_species_signature(unsorted_neighbor_sequence)
    cluster = Cluster.from_neighbor_info(unsorted_neighbor_sequence)
    k = primitive_cell[migrating_ion_index].properties["local_index"]
    if kind not in reference_local_env_dict:
        reference_local_env_dict[kind] = {"cluster": cluster, "neighbor_sequence": list(unsorted_neighbor_sequence)}
        local_env_info_dict[k] = list(unsorted_neighbor_sequence)
        return True, kind, cluster
    m = ClusterMatcher(reference_local_env_dict[kind]["cluster"], rtol=distance_matrix_rtol, atol=distance_matrix_atol).match(
        cluster, find_nearest_if_fail=find_nearest_if_fail)
    local_env_info_dict[k] = [unsorted_neighbor_sequence[j] for j in m.reference_to_candidate]
    return False, kind, cluster
""", what=("ret", "state", "raise"), opaque={SIG, CL + "Cluster.from_neighbor_info", CL + "ClusterMatcher.match",
                                              CL + "ClusterMatcher.__init__"})
    c.refine(WRAP, """
def normalize_supercell_tuple(site_belongs_to_supercell=[5, 1, 7], image_of_site=(0, -1, 1), supercell_shape=[5, 6, 7],
                              additional_input=False):
    cell = np.mod(np.array(site_belongs_to_supercell) + np.array(image_of_site), supercell_shape).tolist()
    if additional_input is not False:
        cell.append(additional_input)
    return tuple(cell)
""", what=("ret",))


SPEC = """
def generate_events(self, structure_file="210.cif", convert_to_primitive_cell=False, local_env_cutoff_dict=None,
                    mobile_ion_identifiers=None, distance_matrix_rtol=0.01, distance_matrix_atol=0.01, find_nearest_if_fail=True,
                    export_local_env_structure=False, supercell_shape=None, event_file="events.json", mobile_species=None,
                    site_mapping=None, local_env_cutoff=None, rtol=None, atol=None):
    import kmcpy
    kind, ids, rtol, atol, shape, cutoffs, mobile_species, cutoff = self._normalize_generate_events_inputs(
        mobile_ion_identifiers=mobile_ion_identifiers, distance_matrix_rtol=distance_matrix_rtol,
        distance_matrix_atol=distance_matrix_atol, supercell_shape=supercell_shape,
        local_env_cutoff_dict=local_env_cutoff_dict, mobile_species=mobile_species, site_mapping=site_mapping,
        local_env_cutoff=local_env_cutoff, rtol=rtol, atol=atol)
    if len(ids) != 2:
        raise ValueError("identifiers")
    full = load_labeled_structure_from_cif(structure_file, primitive=convert_to_primitive_cell)
    full.add_oxidation_state_by_guess()
    order = ActiveSiteOrder.from_structure_and_mapping(full, site_mapping)
    final = ActiveSiteOrder.from_structure_and_mapping(full, site_mapping, supercell_shape=shape)
    cell = structure_from_sites(order.active_structure().sites)
    if cutoffs is None:
        cutoffs = self._build_uniform_cutoff_dict(structure=cell, mobile_species=mobile_species, local_env_cutoff=cutoff or 4.0)
    ions = find_atom_indices(cell, site_selection_kind=kind, atom_identifier=ids[0])
    lookup = prepare_cutoff_neighbor_lookup(cutoffs)
    references = {}
    environments = {}
    for ion in ions:
        self._match_or_register_local_environment(
            primitive_cell=cell, migrating_ion_index=ion,
            unsorted_neighbor_sequence=LocalLatticeStructure.sort_neighbor_info(get_cutoff_neighbor_info(cell, ion, lookup)),
            reference_local_env_dict=references, local_env_info_dict=environments, distance_matrix_rtol=rtol,
            distance_matrix_atol=atol, find_nearest_if_fail=find_nearest_if_fail)
    big = make_kmc_supercell(cell, shape)
    movers = find_atom_indices(big, site_selection_kind=kind, atom_identifier=ids[0])
    where = build_site_index(big, skip_check=False)
    events = []
    for k in movers:
        here = big[k].properties["supercell"]
        near = [where[site_index_key(local_index=n["local_index"], label=n["label"], supercell=normalize_supercell_tuple(
            site_belongs_to_supercell=here, image_of_site=n["image"], supercell_shape=shape))]
            for n in environments[big[k].properties["local_index"]]]
        for t in near:
            if self._is_valid_target_site(big[t], kind, ids[1]):
                events.append(Event(mobile_ion_indices=(k, t), local_env_indices=tuple(near)))
    if not events:
        raise ValueError("none")
    lib = EventLib()
    for e in events:
        lib.add_event(e)
    lib.set_index_metadata(final)
    lib.generate_event_dependencies()
    lib.to(event_file)
    self.reference_local_env_dict = references
    self.local_env_info_dict = environments
    return references
"""


def generation(c):
    """One event per selected site and selected neighbour, in the supercell's own numbering, saved with its dependencies."""
    LOAD = "kmcpy.io.cif.load_labeled_structure_from_cif"
    opaque = {NORM, REG, EXP, VALID, UNI, FIND, WRAP, LOAD, AO + ".from_structure_and_mapping", AO + ".active_structure",
              ST + "structure_from_sites", ST + "make_kmc_supercell", ST + "build_site_index", ST + "site_index_key",
              NB + "prepare_cutoff_neighbor_lookup", NB + "get_cutoff_neighbor_info", LLS + ".sort_neighbor_info",
              EL + ".add_event", EL + ".set_index_metadata", EL + ".generate_event_dependencies", EL + ".to",
              EL + ".get_dependency_statistics"}
    c.refine(EG + ".generate_events", SPEC, what=("ret", "raise", "state"), places={"reference_local_env_dict", "local_env_info_dict"},
             calls=(EL + ".add_event", EL + ".set_index_metadata", EL + ".to", EL + ".generate_event_dependencies", REG),
             order=((EL + ".add_event", EL + ".generate_event_dependencies"), (EL + ".generate_event_dependencies", EL + ".to"),
                    (EL + ".set_index_metadata", EL + ".to")), opaque=opaque)


OBLIGATIONS = [identifiers, inputs, neighbours, environments, generation]
