"""P29: a matched cluster is a relabelling of the reference, or the closest one when asked."""
from kstat.harness import AnalysisError, trace
from kstat.terms import NONE, cval, is_const, mk, subst, subterms

TITLE = "Matching a cluster to a reference finds a true correspondence of sites"
CM = "kmcpy.structure.cluster."
CL, M = CM + "Cluster", CM + "ClusterMatcher"
MATCH, ORD, VAL, PERM, REF, PART, NEAR, BUILD = (M + x for x in (
    ".match", ".ordered_candidate_indices", "._validate_signature", "._matching_permutations", "._reference_assignment_order",
    "._is_partial_distance_match", "._nearest_permutation", "._build_match"))
LLS = "kmcpy.structure.local_lattice_structure.LocalLatticeStructure"


def only_lossy(cond):
    """Is the condition made of the sets and the numbers of the clusters' labels alone?"""
    labels = {t for t in subterms(cond) if t.op == "attr" and t.a[1] == "labels"}
    for t in subterms(cond):
        if t.op == "attr" and t.a[1] == "signature":
            return False
        if t not in labels and any(x in labels for x in flat(t.a)):
            if not (t.op == "setof" or t.op == "call" and t.a[0] in ("builtins.set", "builtins.frozenset", "builtins.len")):
                return False
    return bool(labels)


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flat(y)
        else:
            yield y


def deciding(c):
    """What a match answers and refuses."""
    # Sets and numbers of labels forget how often each label occurs: a test made of those alone decides something else.
    hidden = {CL + ".signature", CL + ".labels"}
    try:
        mixed = not only_lossy(c.summary(VAL, opaque=hidden).raise_cond())
    except AnalysisError:
        mixed = True
    c.refine(VAL, """
def _validate_signature(self, candidate):
    if self.reference.signature != candidate.signature:
        raise ValueError("signature")
""", what=("raise",), opaque={CL + ".signature"} if mixed else hidden,
             extra_vocab=() if mixed else ("builtins.set", "builtins.frozenset", "builtins.len"))
    c.refine(MATCH, """
def match(self, candidate, *, require_unique=False, find_nearest_if_fail=False):
    self._validate_signature(candidate)
    found = self._matching_permutations(candidate, stop_after=2)
    if found:
        if require_unique and len(found) != 1:
            raise ValueError("ambiguous")
        return self._build_match(candidate, found[0], len(found) == 1, score=0.0)
    if find_nearest_if_fail:
        p, score = self._nearest_permutation(candidate)
        return self._build_match(candidate, p, True, score=score)
    raise ValueError("none")
""", what=("ret", "raise"), calls=(VAL,), opaque={VAL, PERM, NEAR, BUILD})
    c.refine(ORD, """
def ordered_candidate_indices(self, candidate, *, require_unique=False, find_nearest_if_fail=False):
    return self.match(candidate, require_unique=require_unique, find_nearest_if_fail=find_nearest_if_fail).ordered_candidate_indices
""", what=("ret",), opaque={MATCH})
    c.refine(CM + "match_clusters", """
def match_clusters(reference, candidate, *, rtol=1e-3, atol=1e-3, require_unique=False, find_nearest_if_fail=False):
    return ClusterMatcher(reference, rtol=rtol, atol=atol).match(
        candidate, require_unique=require_unique, find_nearest_if_fail=find_nearest_if_fail)
""", what=("ret",), opaque={MATCH})
    c.refine(M + ".__init__", """
def __init__(self, reference, rtol=1e-3, atol=1e-3):
    self.reference = reference
    self.rtol = rtol
    self.atol = atol
""", what=("state",))


def searching(c):
    """Sites correspond when their labels and all mutual distances agree."""
    c.refine(PART, """
def _is_partial_distance_match(self, candidate, ref_index, candidate_index, reference_to_candidate):
    return all(np.isclose(self.reference.distance_matrix[ref_index, r], candidate.distance_matrix[candidate_index, k],
                          rtol=self.rtol, atol=self.atol)
               for r, k in enumerate(reference_to_candidate) if k is not None)
""", what=("ret",))
    c.refine(NEAR, """
def _nearest_permutation(self, candidate):
    by = {}
    for i, label in enumerate(candidate.labels):
        by.setdefault(label, []).append(i)
    groups = []
    for label in sorted(by):
        groups.append(([i for i, x in enumerate(self.reference.labels) if x == label], itertools.permutations(by[label])))
    best = None
    low = float("inf")
    for choice in itertools.product(*(g[1] for g in groups)):
        p = [0] * len(self.reference.species)
        for (refs, _), cands in zip(groups, choice):
            for r, k in zip(refs, cands):
                p[r] = k
        score = float(np.sum(np.abs(self.reference.distance_matrix - candidate.distance_matrix[np.ix_(p, p)])))
        if score < low:
            low = score
            best = p
    if best is None:
        raise ValueError("none")
    return tuple(best), low
""", what=("ret", "raise"), opaque={CL + ".labels"})
    f = c.func(PERM)
    opts = {"opaque": {CL + ".labels", REF, PART}}
    c.refine(PERM, SEARCH, what=("ret",), **opts)
    backtracking(c, f, c.summary(PERM, **opts), c.spec_summary(f, SEARCH, **opts))


SEARCH = """
def _matching_permutations(self, candidate, *, stop_after):
    by = {}
    for i, label in enumerate(candidate.labels):
        by.setdefault(label, []).append(i)
    order = self._reference_assignment_order(by)
    chosen = [None] * len(self.reference.species)
    used = set()
    out = []
    def walk(k):
        if stop_after is not None and len(out) >= stop_after:
            return
        if k == len(order):
            out.append(tuple(int(v) for v in chosen))
            return
        r = order[k]
        for x in by[self.reference.labels[r]]:
            if x in used:
                continue
            if not self._is_partial_distance_match(candidate, r, x, chosen):
                continue
            chosen[r] = x
            used.add(x)
            walk(k + 1)
            used.remove(x)
            chosen[r] = None
    walk(0)
    return out
"""


def conjuncts(g):
    return list(g.a) if g.op == "and" else [g]


def step(s):
    """The descent of the search: what it assigns, under which tests, and what it undoes; a text when it is not a plain backtracking search."""
    rec = [e for e in s.effects if e.kind == "recurse"]
    if len(rec) != 1:
        return f"{len(rec)} recursive calls"
    e = rec[0]
    tests = [t for t in subterms(e.guard) if t.op == "call" and t.a[0] == PART]
    if len(tests) != 1:
        return None if not tests else "several distance tests"
    kw = dict(tests[0].a[2])
    if set(kw) != {"self", "candidate", "ref_index", "candidate_index", "reference_to_candidate"}:
        return "the distance test is called in an unusual way"
    ref, cand, chosen = kw["ref_index"], kw["candidate_index"], kw["reference_to_candidate"]
    used = [t.a[0].a[2] for t in conjuncts(e.guard) if t.op == "not" and t.a[0].op == "cmp" and t.a[0].a[0] == "in" and t.a[0].a[1] is cand]
    out = {"e": e, "ref": ref, "cand": cand, "chosen": chosen, "used": used[0] if len(used) == 1 else None, "held": {}, "after": {}}
    for pair in e.value.a:
        a, now = pair.a
        for name in ("chosen", "used"):
            base = out[name]
            if base is not None and (now is base or now.op in ("setitem", "setadd", "append") and now.a[0] is base):
                out["held"][name] = now
                fin = s.interp.heap.get(("cont", a))
                out["after"][name] = [] if fin is None else [
                    leaf for x in subterms(fin) if x.op == "foldval" and x.a[0].op == "system" and len(x.a[0].a[2]) > x.a[1]
                    and any(y.op == "call" and y.a[0] == PART for y in subterms(x.a[0].a[2][x.a[1]][1]))
                    for leaf in leaves(x.a[0].a[2][x.a[1]][1])]
    return out


def leaves(t):
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "ite" else [t]


def backtracking(c, f, r, s):
    where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
    name = "P29.structure.cluster.ClusterMatcher._matching_permutations:"
    rules = {"tests": "a candidate is tried exactly when it is unused and its distances to the sites placed so far agree",
             "descends": "the next reference site is searched with the choice recorded",
             "undone": "a choice is taken back before the next one is tried"}
    a, b = step(r), step(s)
    if a is None:
        c.bad(name + "tests", rules["tests"], where, "a site is placed without comparing its distances")
        return
    if isinstance(a, str):
        for k in rules:
            c.unknown(name + k, rules[k], where, a)
        return

    def canon(x, t):
        return subst(t, {v: mk("p", n) for n, v in (("chosen", x["chosen"]), ("used", x["used"])) if v is not None})

    at = a["e"].where
    c.compare_terms(name + "tests", at, r, canon(a, trace([(a["e"], mk("tuple", a["ref"], a["cand"]))])),
                    s, canon(b, trace([(b["e"], mk("tuple", b["ref"], b["cand"]))])), rule=rules["tests"])
    arg = a["e"].target.a[0]
    if a["used"] is None:
        c.unknown(name + "descends", rules["descends"], at, "the candidates in use are not tracked by a plain collection")
        return
    missing = [n for n in ("chosen", "used") if n not in a["held"]]
    plain = [n for n in ("chosen", "used") if a["held"].get(n) is a[n]]
    put, add = a["held"].get("chosen"), a["held"].get("used")
    if missing:
        c.unknown(name + "descends", rules["descends"], at, "the state handed on is not recognised")
    elif plain:
        c.bad(name + "descends", rules["descends"], at, "the choice is not recorded before the next site is searched")
    elif len(arg) != 1 or not is_const(arg[0]):
        c.unknown(name + "descends", rules["descends"], at, "the next position is not recognised")
    elif cval(arg[0]) != 1:
        c.bad(name + "descends", rules["descends"], at, f"position {cval(arg[0])} follows position 0")
    elif put.op == "setitem" and put.a[1] is a["ref"] and put.a[2] is a["cand"] and add.op in ("setadd", "append") and add.a[1] is a["cand"]:
        c.ok(name + "descends", rules["descends"], at)
    elif put.op == "setitem" and add.op in ("setadd", "append"):
        c.bad(name + "descends", rules["descends"], at, "what is recorded is not the pair of sites that was tested")
    else:
        c.unknown(name + "descends", rules["descends"], at, "the state handed on is not recognised")
    worst = ("EQ", "")
    for n in ("chosen", "used"):
        for leaf in a["after"].get(n, ()):
            if leaf.op == "phiN":
                continue
            if leaf.op == "setitem" and leaf.a[0].op == "phiN" and leaf.a[2] is not NONE or leaf.op == "setadd" and leaf.a[0].op == "phiN":
                worst = ("NE", f"the {'place' if n == 'chosen' else 'candidate'} taken by one choice is still taken when the next is tried")
            elif not (leaf.op == "setitem" and leaf.a[2] is NONE or n == "used" and leaf.op in UNDO and leaf.a[1] in ("remove", "discard", "pop")) and worst[0] == "EQ":
                worst = ("UNKNOWN", f"the state after a choice is {leaf.op}")
    c.add(name + "undone", rules["undone"], at, *worst)


UNDO = {"mutated"}


def answering(c):
    """The answer's parts describe one and the same correspondence."""
    c.refine(BUILD, """
def _build_match(self, candidate, reference_to_candidate, is_unique, *, score):
    back = [-1] * len(reference_to_candidate)
    for r, k in enumerate(reference_to_candidate):
        back[k] = r
    p = reference_to_candidate
    sites = tuple(candidate.site_indices[k] for k in p)
    o = Cluster(site_indices=sites, species=tuple(candidate.species[k] for k in p), coords=tuple(candidate.coords[k] for k in p),
                roles=tuple(candidate.roles[k] for k in p), metadata=tuple(candidate.metadata[k] for k in p),
                distance_matrix=candidate.distance_matrix[np.ix_(p, p)])
    return ClusterMatch(reference_to_candidate=tuple(p), candidate_to_reference=tuple(back), ordered_candidate_indices=sites,
                        fingerprint=o.fingerprint, is_unique=is_unique, score=score)
""", what=("ret",), opaque={CL, CL + ".fingerprint"})
    c.refine(CL + ".__eq__", """
def __eq__(self, other):
    if not isinstance(other, Cluster):
        return False
    if len(self.site_indices) != len(other.site_indices):
        return False
    try:
        ClusterMatcher(self).match(other)
    except ValueError:
        return False
    return True
""", what=("ret",), opaque={MATCH}, exc=True)
    c.refine(CL + ".signature", """
def signature(self):
    n = {}
    for label in self.labels:
        n[label] = n.get(label, 0) + 1
    return tuple(sorted(n.items(), key=lambda x: x[0]))
""", what=("ret",), opaque={CL + ".labels"})
    c.refine(CL + ".labels", """
def labels(self):
    return tuple(zip(self.species, self.roles))
""", what=("ret",))
    c.refine(CL + ".fingerprint", """
def fingerprint(self):
    text = json.dumps({"labels": self.labels, "distances": np.round(self.distance_matrix, 8).tolist()}, sort_keys=True, separators=(",", ":"))
    return hashlib.sha256(text.encode("utf-8")).hexdigest()
""", what=("ret",), opaque={CL + ".labels"})


def building(c):
    """A cluster keeps each site's species, position, index, role and distances together."""
    c.refine(CL + ".from_neighbor_info", """
def from_neighbor_info(cls, neighbor_info, roles=None, analyze_symmetry=False):
    return cls.from_sites([n["site"] for n in neighbor_info],
                          site_indices=[int(n.get("site_index", n.get("local_index", i))) for i, n in enumerate(neighbor_info)],
                          roles=roles, metadata=[dict(n) for n in neighbor_info], analyze_symmetry=analyze_symmetry)
""", what=("ret",), opaque={CL + ".from_sites"})
    c.refine(CL + ".from_sites", """
def from_sites(cls, sites, site_indices=None, roles=None, metadata=None, analyze_symmetry=False):
    return cls(site_indices=site_indices, sites=sites, roles=roles, metadata=metadata, analyze_symmetry=analyze_symmetry)
""", what=("ret",), opaque={CL})
    c.refine(CL + "._build_distance_matrix_from_sites", """
def _build_distance_matrix_from_sites(sites):
    n = len(sites)
    d = np.zeros((n, n), dtype=float)
    for i in range(n):
        for j in range(n):
            d[i, j] = _site_distance(sites[i], sites[j])
    return d
""", what=("ret",), opaque={CM + "_site_distance"})
    c.refine(CL + "._build_distance_matrix", """
def _build_distance_matrix(coords):
    n = len(coords)
    d = np.zeros((n, n), dtype=float)
    for i in range(n):
        for j in range(n):
            d[i, j] = np.linalg.norm(coords[i] - coords[j])
    return d
""", what=("ret",))
    c.refine(CM + "_site_distance", """
def _site_distance(site_a, site_b):
    d = getattr(site_a, "distance", None)
    if d is not None:
        try:
            return float(d(site_b, jimage=[0, 0, 0]))
        except TypeError:
            return float(d(site_b))
    return float(np.linalg.norm(_site_coords(site_a) - _site_coords(site_b)))
""", what=("ret",), opaque={CM + "_site_coords"}, exc=True)
    c.refine(CL + ".__init__", """
def __init__(self, site_indices=None, sites=None, *, species=None, coords=None, roles=None, metadata=None, distance_matrix=None,
             sym=None, analyze_symmetry=False):
    if sites is not None:
        species = tuple(_species_string(s) for s in sites)
        coords = tuple(_site_coords(s) for s in sites)
        if distance_matrix is None:
            distance_matrix = self._build_distance_matrix_from_sites(sites)
    if species is None or coords is None:
        raise ValueError("sites")
    species = tuple(str(v) for v in species)
    xyz = np.asarray(coords, dtype=float)
    if len(species) == 0 and xyz.size == 0:
        xyz = xyz.reshape((0, 3))
    if xyz.shape != (len(species), 3):
        raise ValueError("coords")
    if site_indices is None:
        ids = tuple(range(len(species)))
    else:
        ids = tuple(int(v) for v in site_indices)
    if len(ids) != len(species):
        raise ValueError("site_indices")
    if roles is None:
        roles = tuple("" for _ in species)
    else:
        roles = tuple(str(v) for v in roles)
    if len(roles) != len(species):
        raise ValueError("roles")
    if metadata is None:
        metadata = tuple({} for _ in species)
    else:
        metadata = tuple(dict(v) for v in metadata)
    if len(metadata) != len(species):
        raise ValueError("metadata")
    if distance_matrix is None:
        d = self._build_distance_matrix(xyz)
    else:
        d = np.asarray(distance_matrix, dtype=float)
        if d.shape != (len(species), len(species)):
            raise ValueError("distance_matrix")
    self.species = species
    self.coords = xyz
    self.site_indices = ids
    self.roles = roles
    self.metadata = metadata
    self.distance_matrix = d
""", what=("state", "raise"), places=("species", "coords", "site_indices", "roles", "metadata", "distance_matrix"),
             opaque={CM + "_species_string", CM + "_site_coords", CL + "._build_distance_matrix", CL + "._build_distance_matrix_from_sites",
                     CL + ".get_bond_distances", CL + ".point_group_symbol"})


def environments(c):
    """Reordering an environment moves every site's data together."""
    c.refine(LLS + ".to_cluster", """
def to_cluster(self):
    return Cluster.from_sites(self.structure, site_indices=self.site_indices)
""", what=("ret",), opaque={CL + ".from_sites"})
    SIG, HASH = ("kmcpy.structure.local_lattice_structure." + n for n in ("ordered_site_signature", "ordered_site_hash"))
    c.refine(LLS + ".is_equivalent_to", """
def is_equivalent_to(self, other_local_env, rtol=1e-3, atol=1e-3):
    try:
        ClusterMatcher(self.to_cluster(), rtol=rtol, atol=atol).match(other_local_env.to_cluster())
    except ValueError:
        return False
    return True
""", what=("ret",), calls=(MATCH,), opaque={MATCH, LLS + ".to_cluster"}, exc=True)
    c.refine(LLS + ".match_with_reference", """
def match_with_reference(self, reference_local_env, rtol=1e-3, atol=1e-3, find_nearest_if_fail=False):
    m = ClusterMatcher(reference_local_env.to_cluster(), rtol=rtol, atol=atol).match(
        self.to_cluster(), find_nearest_if_fail=find_nearest_if_fail)
    out = self.__class__.__new__(self.__class__)
    out.__dict__.update(self.__dict__.copy())
    out.structure = Molecule.from_sites([self.structure[i] for i in m.reference_to_candidate])
    out.site_indices = [self.site_indices[i] for i in m.reference_to_candidate]
    out.local_environment_signature = ordered_site_signature(out.structure)
    out.local_environment_hash = ordered_site_hash(out.local_environment_signature)
    return out
""", what=("ret",), calls=(MATCH,), stores=("structure", "site_indices", "local_environment_signature", "local_environment_hash"),
             opaque={MATCH, LLS + ".to_cluster", SIG, HASH})
    c.refine(LLS + ".get_environment_signature", """
def get_environment_signature(self):
    return self.to_cluster().signature
""", what=("ret",), opaque={LLS + ".to_cluster", CL + ".signature"})
    c.refine(LLS + ".from_lattice_structure", """
def from_lattice_structure(cls, lattice_structure, center, cutoff, site_mapping=None, basis_type="chebyshev", is_write_basis=False,
                           exclude_species=None, local_site_order=None, exclude_center_site=None):
    if site_mapping is None:
        site_mapping = lattice_structure.site_mapping
    return cls(template_structure=lattice_structure.template_structure, center=center, cutoff=cutoff, site_mapping=site_mapping,
               basis_type=basis_type, is_write_basis=is_write_basis, exclude_species=exclude_species,
               local_site_order=local_site_order, exclude_center_site=exclude_center_site)
""", what=("ret",), opaque={LLS})


def width(c):
    """Numbers are kept at full width."""
    c.full_width([CL + "._build_distance_matrix", CL + "._build_distance_matrix_from_sites", CL + ".__init__"])


OBLIGATIONS = [deciding, searching, answering, building, environments, width]
