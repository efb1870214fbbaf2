TITLE = "A site-energy model sees the occupation of the current state"
M = "kmcpy.models.site_energy."
S = M + "SiteEnergyModel"
PRE, POST, MAP = S + "._changes_from_pre_state", S + "._changes_from_post_state", S + "._mapped_changes"
VAL, SITE, EXT = S + "._external_value", S + "._external_site", S + "._build_external_occupation"
SL, BL, BS = M + "_external_state_value_from_lookup", M + "_build_site_lookup", M + "_build_state_lookup"
ENS, RUN, RC, RA = S + "._ensure_initialized", S + "._resolve_runtime", S + "._resolve_compute_fn", S + "._resolve_apply_fn"
INIT = S + ".initialize_state"


def hop(c):
    """The changes of a hop exchange the two end sites, before and after it was applied."""
    c.refine(PRE, """
def _changes_from_pre_state(self, event, occupations):
    a, b = (int(s) for s in event.mobile_ion_indices)
    x = int(occupations[a])
    y = int(occupations[b])
    return self._mapped_changes(((a, x, y), (b, y, x)))
""", what=("ret", "raise"), opaque={MAP})
    c.refine(POST, """
def _changes_from_post_state(self, event, occupations):
    a, b = (int(s) for s in event.mobile_ion_indices)
    x = int(occupations[a])
    y = int(occupations[b])
    return self._mapped_changes(((a, y, x), (b, x, y)))
""", what=("ret", "raise"), opaque={MAP})
    c.refine(MAP, """
def _mapped_changes(self, changes):
    out = []
    for site, old, new in changes:
        ext = self._external_site(site)
        before = self._external_value(site, old)
        after = self._external_value(site, new)
        if before == after:
            continue
        out.append(MappedOccupationChange(kmcpy_site=int(site), external_site=ext, old_state=int(old), new_state=int(new),
                                          old_value=before, new_value=after))
    return out
""", what=("ret", "raise"), opaque={SITE, VAL})
    c.refine(SITE, """
def _external_site(self, kmcpy_site):
    if self._site_lookup is None:
        raise RuntimeError("state")
    return int(self._site_lookup[int(kmcpy_site)])
""", what=("ret", "raise"))
    c.refine(VAL, """
def _external_value(self, kmcpy_site, state_value):
    return _external_state_value_from_lookup(kmcpy_site=int(kmcpy_site), state_value=int(state_value),
                                             state_lookup=self._state_lookup, state_lookup_by_site=self._state_lookup_by_site)
""", what=("ret",), opaque={SL})
    c.refine(M + "MappedOccupationChange.as_flip", "def as_flip(self):\n    return (self.external_site, self.new_value)\n", what=("ret",))
    c.refine(M + "MappedOccupationChange.as_system_change_tuple", """
def as_system_change_tuple(self):
    return (self.external_site, self.old_value, self.new_value)
""", what=("ret",))


def energy(c):
    """The energy is the callable's difference for the hop, converted to meV."""
    CK = M + "_call_with_supported_keywords"
    c.refine(S + ".compute", """
def compute(self, event, simulation_state):
    self._ensure_initialized(simulation_state)
    changes = self._changes_from_pre_state(event, simulation_state.occupations)
    if not changes:
        return 0.0
    raw = _call_with_supported_keywords(
        self._resolve_compute_fn(),
        {"runtime": self._resolve_runtime(), "external_occupation": self.external_occupation, "changes": changes,
         "event": event, "simulation_state": simulation_state, **self.compute_kwargs},
        user_kwarg_names=set(self.compute_kwargs))
    return _numeric_delta_to_mev(raw, self.unit_factor_to_mev)
""", what=("ret",), calls=(ENS, CK), opaque={PRE, ENS, CK, RUN, RC, M + "_numeric_delta_to_mev", S + ".unit_factor_to_mev"})
    c.refine(M + "_numeric_delta_to_mev", """
def _numeric_delta_to_mev(value, unit_factor_to_mev):
    if isinstance(value, bool) or not isinstance(value, (int, float, np.number)):
        raise TypeError("number")
    return float(value) * unit_factor_to_mev
""", what=("ret", "raise"))
    c.refine(S + ".unit_factor_to_mev", "def unit_factor_to_mev(self):\n    return _unit_factor_to_mev(self.units)\n", what=("ret",))
    for u, v in (("eV", 1000.0), ("meV", 1.0)):
        c.lemma(M + "_unit_factor_to_mev", f"def _unit_factor_to_mev(units):\n    return _unit_factor_to_mev({u!r})\n",
                f"def _unit_factor_to_mev(units):\n    return {v}\n", f"P21.{u} in meV")
        for w in (u, u.lower(), u.upper(), " " + u + " "):
            c.lemma(M + "_normalize_energy_units", f"def _normalize_energy_units(units):\n    return _normalize_energy_units({w!r})\n",
                    f"def _normalize_energy_units(units):\n    return {u!r}\n", f"P21.unit name {w!r}")
    c.refine(M + "_normalize_energy_units", """
def _normalize_energy_units(units):
    u = str(units).strip()
    if u.lower() not in ("mev", "ev"):
        raise ValueError("units")
    return "meV" if u.lower() == "mev" else "eV"
""", what=("ret", "raise"))
    c.refine(CK, """
def _call_with_supported_keywords(func, kwargs, *, user_kwarg_names):
    try:
        parameters = inspect.signature(func).parameters
    except (TypeError, ValueError):
        return func(**kwargs)
    if any(p.kind == inspect.Parameter.VAR_KEYWORD for p in parameters.values()):
        return func(**kwargs)
    accepted = {n for n, p in parameters.items()
                if p.kind in (inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.KEYWORD_ONLY)}
    if sorted(user_kwarg_names - accepted):
        raise TypeError("keyword")
    return func(**{k: v for k, v in kwargs.items() if k in accepted})
""", what=("ret", "raise"))
    c.refine(RC, """
def _resolve_compute_fn(self):
    if self.compute_fn is not None:
        return self.compute_fn
    if self._compute_callable is None:
        if self.compute_ref is None:
            raise RuntimeError("compute")
        self._compute_callable = resolve_callable_reference(self.compute_ref)
    return self._compute_callable
""", what=("ret", "raise"), opaque={M + "resolve_callable_reference"})
    c.refine(RA, """
def _resolve_apply_fn(self):
    if self.apply_fn is not None:
        return self.apply_fn
    if self.apply_ref is None:
        return None
    if self._apply_callable is None:
        self._apply_callable = resolve_callable_reference(self.apply_ref)
    return self._apply_callable
""", what=("ret", "raise"), opaque={M + "resolve_callable_reference"})
    c.refine(RUN, """
def _resolve_runtime(self):
    if self.runtime is None and self.runtime_ref is not None:
        self.runtime = resolve_callable_reference(self.runtime_ref)(**self.runtime_kwargs)
    return self.runtime
""", what=("ret", "raise", "state"), opaque={M + "resolve_callable_reference"})


def composite(c):
    """A composite model starts and commits every one of its submodels that keeps a state."""
    K = "kmcpy.models.composite_lce_model."
    c.refine(K + "CompositeLCEModel.apply_event", """
def apply_event(self, *, event, simulation_state):
    for model in (self.kra_model, self.site_model):
        apply_event = getattr(model, "apply_event", None)
        if callable(apply_event):
            apply_event(event=event, simulation_state=simulation_state)
""", what=(), calls=(".apply_event",), alts=["""
def apply_event(self, *, event, simulation_state):
    for model in self.models:
        if callable(getattr(model, "apply_event", None)):
            model.apply_event(event=event, simulation_state=simulation_state)
"""])
    c.refine(K + "CompositeLCEModel.initialize_state", """
def initialize_state(self, *, simulation_state, event_lib=None, structure=None, config=None, active_site_order=None):
    for model in (self.kra_model, self.site_model):
        initialize_state = getattr(model, "initialize_state", None)
        if callable(initialize_state):
            kwargs = {"simulation_state": simulation_state, "event_lib": event_lib, "structure": structure, "config": config}
            if active_site_order is not None and _accepts_keyword(initialize_state, "active_site_order"):
                kwargs["active_site_order"] = active_site_order
            initialize_state(**kwargs)
""", what=(), calls=(".initialize_state",), opaque={K + "_accepts_keyword"}, alts=["""
def initialize_state(self, *, simulation_state, event_lib=None, structure=None, config=None, active_site_order=None):
    for model in self.models:
        initialize_state = getattr(model, "initialize_state", None)
        if callable(initialize_state):
            kwargs = {"simulation_state": simulation_state, "event_lib": event_lib, "structure": structure, "config": config}
            if active_site_order is not None and _accepts_keyword(initialize_state, "active_site_order"):
                kwargs["active_site_order"] = active_site_order
            initialize_state(**kwargs)
"""])
    c.refine(K + "CompositeLCEModel.__init__", """
def __init__(self, site_model=None, kra_model=None, kra_fit_metadata=None, site_fit_metadata=None, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.models = [m for m in (site_model, kra_model) if m]
    self.site_model = site_model
    self.kra_model = kra_model
""", what=("state",), places=("models", "site_model", "kra_model"))
    c.refine(K + "_accepts_keyword", """
def _accepts_keyword(callable_obj, keyword):
    try:
        parameters = inspect.signature(callable_obj).parameters
    except (TypeError, ValueError):
        return False
    return keyword in parameters or any(p.kind == inspect.Parameter.VAR_KEYWORD for p in parameters.values())
""", what=("ret",))


def commit(c):
    """An accepted hop is committed once, to the external evaluator and to the cached occupation."""
    c.refine(S + ".apply_event", """
def apply_event(self, *, event, simulation_state):
    self._ensure_initialized(simulation_state)
    changes = self._changes_from_post_state(event, simulation_state.occupations)
    if not changes:
        return
    fn = self._resolve_apply_fn()
    if fn is not None:
        fn(runtime=self._resolve_runtime(), external_occupation=self.external_occupation, changes=changes, event=event,
           simulation_state=simulation_state, **self.apply_kwargs)
    for ch in changes:
        self.external_occupation[ch.external_site] = ch.new_value
""", what=("raise", "state"), stores=("external_occupation",), calls=(ENS, POST, "apply"), opaque={POST, ENS, RUN, RA})
    c.refine(ENS, """
def _ensure_initialized(self, simulation_state):
    if self.external_occupation is None or self._site_lookup is None:
        self.initialize_state(simulation_state=simulation_state)
""", what=("raise",), calls=(INIT,), opaque={INIT})


def start(c):
    """Starting a run rebuilds every cache from the run's own state and checks it against the model."""
    LB = M + "_build_state_lookup_by_site"
    SO, VO, VE = S + "._set_active_site_order", S + "._validate_kmcpy_site_order", S + "._validate_event_mappings"
    c.refine(INIT, """
def initialize_state(self, *, simulation_state, event_lib=None, structure=None, config=None, active_site_order=None):
    occ = list(simulation_state.occupations)
    self._set_active_site_order(active_site_order)
    self._validate_kmcpy_site_order(len(occ))
    self._site_lookup = _build_site_lookup(n_sites=len(occ), site_mapping=self.site_mapping, external_size=self.external_size,
                                           initial_occupation=self.initial_occupation)
    self._state_lookup = _build_state_lookup(self.state_mapping)
    self._state_lookup_by_site = _build_state_lookup_by_site(n_sites=len(occ), state_mapping_by_site=self.state_mapping_by_site,
                                                             global_state_lookup=self._state_lookup)
    self.external_occupation = self._build_external_occupation(occ)
    self._validate_event_mappings(event_lib, occ)
    self._resolve_runtime()
""", what=("state",), places={"_site_lookup", "_state_lookup", "_state_lookup_by_site", "external_occupation"},
             calls=(SO, VO, VE, RUN), opaque={SO, VO, VE, RUN, BL, BS, LB, EXT}, order=((BL, EXT), (LB, EXT), (SO, VO)))
    c.refine(SO, """
def _set_active_site_order(self, active_site_order):
    if active_site_order is None:
        return
    o = _normalize_active_site_order(active_site_order)
    if self.active_site_order_hash is not None and o.fingerprint != self.active_site_order_hash:
        raise ValueError("order")
    self.active_site_order = o
    self.active_site_order_hash = o.fingerprint
""", what=("state", "raise"), opaque={M + "_normalize_active_site_order"})
    c.refine(VO, """
def _validate_kmcpy_site_order(self, occupation_count):
    if self.active_site_order is not None and self.active_site_order.active_site_count != int(occupation_count):
        raise ValueError("count")
""", what=("raise",), opaque={"kmcpy.structure.active_site_order.ActiveSiteOrder.active_site_count"})
    c.refine(VE, """
def _validate_event_mappings(self, event_lib, occupations):
    events = getattr(event_lib, "events", None)
    if events is None:
        return
    for k, e in enumerate(events):
        try:
            self._changes_from_pre_state(e, occupations)
        except (IndexError, KeyError, ValueError) as exc:
            raise ValueError("event") from exc
""", what=("raise",), calls=(PRE,), opaque={PRE})
    c.refine(BL, """
def _build_site_lookup(*, n_sites, site_mapping, external_size, initial_occupation):
    if site_mapping is None:
        lookup = np.arange(int(n_sites), dtype=np.int64)
    else:
        if [s for s in range(int(n_sites)) if s not in site_mapping]:
            raise ValueError("missing")
        lookup = np.array([site_mapping[s] for s in range(int(n_sites))])
    if np.any(lookup < 0):
        raise ValueError("negative")
    if len(set(lookup.tolist())) != len(lookup):
        raise ValueError("two to one")
    bound = external_size
    if initial_occupation is not None:
        bound = len(initial_occupation)
    if bound is not None and len(lookup) and int(np.max(lookup)) >= bound:
        raise ValueError("outside")
    return lookup
""", what=("ret", "raise"))
    c.refine(M + "_external_size_from_lookup", """
def _external_size_from_lookup(lookup, *, fallback, external_size):
    if external_size is not None:
        return int(external_size)
    if lookup is None or len(lookup) == 0:
        return int(fallback)
    return int(np.max(lookup)) + 1
""", what=("ret",))
    c.refine(BS, """
def _build_state_lookup(state_mapping):
    if state_mapping is None:
        return None
    if not state_mapping:
        return _StateLookup(values=np.empty(0, dtype=object), offset=0)
    lo = min([int(k) for k in state_mapping])
    hi = max([int(k) for k in state_mapping])
    values = np.empty(hi - lo + 1, dtype=object)
    values.fill(_MISSING_STATE_VALUE)
    for k, v in state_mapping.items():
        values[int(k) - lo] = v
    return _StateLookup(values=values, offset=lo)
""", what=("ret",))
    c.refine(LB, """
def _build_state_lookup_by_site(*, n_sites, state_mapping_by_site, global_state_lookup):
    if state_mapping_by_site is None:
        return None
    return tuple(_build_state_lookup(state_mapping_by_site[s]) if s in state_mapping_by_site else global_state_lookup
                 for s in range(int(n_sites)))
""", what=("ret",), opaque={BS})
    c.refine(SL, """
def _external_state_value_from_lookup(*, kmcpy_site, state_value, state_lookup, state_lookup_by_site):
    lookup = state_lookup
    if state_lookup_by_site is not None:
        try:
            lookup = state_lookup_by_site[int(kmcpy_site)]
        except IndexError as exc:
            raise ValueError("site") from exc
    if lookup is None:
        return int(state_value)
    return _state_lookup_value(lookup, kmcpy_site=int(kmcpy_site), state_value=int(state_value))
""", what=("ret",), opaque={M + "_state_lookup_value"})
    c.refine(M + "_state_lookup_value", """
def _state_lookup_value(lookup, *, kmcpy_site, state_value):
    k = int(state_value) - lookup.offset
    if k < 0 or k >= len(lookup.values):
        raise ValueError("state")
    v = lookup.values[k]
    if v is _MISSING_STATE_VALUE:
        raise ValueError("state")
    return v
""", what=("ret", "raise"))
    for fn, keep in (("_normalize_site_mapping", "int(v)"), ("_normalize_state_mapping", "v")):
        p = fn.replace("_normalize_", "")
        c.refine(M + fn, f"""
def {fn}({p}):
    if {p} is None:
        return None
    if isinstance({p}, Mapping):
        return {{int(k): {keep} for k, v in {p}.items()}}
    return {{k: {keep} for k, v in enumerate({p})}}
""", what=("ret",))
    c.refine(M + "_normalize_state_mapping_by_site", """
def _normalize_state_mapping_by_site(state_mapping_by_site):
    if state_mapping_by_site is None:
        return None
    if isinstance(state_mapping_by_site, Mapping):
        return {int(s): _normalize_state_mapping(m) or {} for s, m in state_mapping_by_site.items()}
    return {s: _normalize_state_mapping(m) or {} for s, m in enumerate(state_mapping_by_site) if m is not None}
""", what=("ret",), opaque={M + "_normalize_state_mapping"})


def external(c):
    """The external occupation holds, for every active site, the mapped value of its state, without loss."""
    DT = M + "_resolve_external_dtype"
    c.refine(EXT, """
def _build_external_occupation(self, occupations):
    mapped = [self._external_value(k, int(s)) for k, s in enumerate(occupations)]
    extra = [v for m in (self.state_mapping or {}, *(self.state_mapping_by_site or {}).values()) for v in m.values()]
    dtype = _resolve_external_dtype(self.external_dtype, mapped_values=mapped + extra, fill_value=self.external_fill_value,
                                    initial_occupation=self.initial_occupation)
    if self.initial_occupation is not None:
        out = np.asarray(self.initial_occupation, dtype=dtype).copy()
    else:
        out = np.full(_external_size_from_lookup(self._site_lookup, fallback=len(occupations), external_size=self.external_size),
                      self.external_fill_value, dtype=dtype)
    for k, v in enumerate(mapped):
        out[int(self._site_lookup[k])] = v
    return out
""", what=("ret",), calls=(DT,), opaque={VAL, DT, M + "_external_size_from_lookup"})
    c.refine(DT, """
def _resolve_external_dtype(external_dtype, *, mapped_values, fill_value, initial_occupation):
    if external_dtype is not None:
        return np.dtype(external_dtype)
    values = list(mapped_values)
    if initial_occupation is None:
        values.append(fill_value)
    if all(isinstance(v, (int, np.integer)) for v in values):
        dtype = np.dtype(np.int64)
    elif all(isinstance(v, (int, float, np.number)) for v in values):
        dtype = np.dtype(float)
    else:
        dtype = np.dtype(object)
    if initial_occupation is None:
        return dtype
    if np.can_cast(dtype, initial_occupation.dtype, casting="same_kind"):
        return initial_occupation.dtype
    return np.result_type(initial_occupation.dtype, dtype)
""", what=("ret",))
    c.refine(S + ".__init__", """
def __init__(self, compute_fn=None, compute_ref=None, compute_kwargs=None, apply_fn=None, apply_ref=None, apply_kwargs=None,
             runtime=None, runtime_ref=None, runtime_kwargs=None, site_mapping=None, state_mapping=None, state_mapping_by_site=None,
             initial_occupation=None, external_size=None, external_fill_value=0, external_dtype=None, active_site_order=None,
             active_site_order_hash=None, units="eV", name="SiteEnergyModel"):
    self.name = name
    self.compute_fn = compute_fn
    self.compute_ref = _normalize_optional_ref(compute_ref)
    self.compute_kwargs = dict(compute_kwargs or {})
    self.apply_fn = apply_fn
    self.apply_ref = _normalize_optional_ref(apply_ref)
    self.apply_kwargs = dict(apply_kwargs or {})
    self.runtime = runtime
    self.runtime_ref = _normalize_optional_ref(runtime_ref)
    self.runtime_kwargs = dict(runtime_kwargs or {})
    self.site_mapping = _normalize_site_mapping(site_mapping)
    self.state_mapping = _normalize_state_mapping(state_mapping)
    self.state_mapping_by_site = _normalize_state_mapping_by_site(state_mapping_by_site)
    self.initial_occupation = _optional_array_copy(initial_occupation)
    self.external_size = int(external_size) if external_size is not None else None
    self.external_fill_value = external_fill_value
    self.external_dtype = external_dtype
    self.active_site_order = _normalize_active_site_order(active_site_order)
    h = _normalize_optional_ref(active_site_order_hash)
    if self.active_site_order is not None and h is not None and h != self.active_site_order.fingerprint:
        raise ValueError("hash")
    self.active_site_order_hash = self.active_site_order.fingerprint if self.active_site_order is not None else h
    self.units = _normalize_energy_units(units)
    self.external_occupation = None
    self._site_lookup = None
    self._state_lookup = None
    self._state_lookup_by_site = None
""", what=("state", "raise"), places={"name", "compute_fn", "compute_ref", "compute_kwargs", "apply_fn", "apply_ref", "apply_kwargs",
                                      "runtime", "runtime_ref", "runtime_kwargs", "site_mapping", "state_mapping",
                                      "state_mapping_by_site", "initial_occupation", "external_size", "external_fill_value",
                                      "external_dtype", "active_site_order", "active_site_order_hash", "units", "external_occupation",
                                      "_site_lookup", "_state_lookup", "_state_lookup_by_site"},
             opaque={M + f for f in ("_normalize_optional_ref", "_normalize_site_mapping", "_normalize_state_mapping",
                                     "_normalize_state_mapping_by_site", "_optional_array_copy", "_normalize_active_site_order",
                                     "_normalize_energy_units")})
    c.refine(M + "_optional_array_copy", """
def _optional_array_copy(value):
    if value is None:
        return None
    return np.asarray(value).copy()
""", what=("ret",))


OBLIGATIONS = [hop, energy, commit, composite, start, external]
