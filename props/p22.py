TITLE = "Local barrier rules mean what they say"
M = "kmcpy.models.local_barrier_model."
LB = M + "LocalBarrierModel"


def choice(c):
    """The first rule of the list that matches decides; then the default; then an error."""
    c.refine(LB + "._matched_properties", """
def _matched_properties(self, simulation_state, event):
    if simulation_state is None:
        raise ValueError("simulation_state is required")
    if event is None:
        raise ValueError("event is required")
    for rule in self.rules:
        if self._rule_matches(rule, simulation_state, event):
            return rule["properties"]
    if self.default_properties is not None:
        return self.default_properties
    raise KeyError("none")
""", what=("ret", "raise", "state"), opaque={LB + "._rule_matches", M + "_event_indices", LB + "._occupation_pattern"})
    c.refine(LB + ".compute", """
def compute(self, simulation_state, event, property_name=None):
    props = self._matched_properties(simulation_state=simulation_state, event=event)
    name = property_name or self.default_property
    if name not in props:
        raise KeyError("missing")
    return float(props[name])
""", what=("ret", "raise", "state"), opaque={LB + "._matched_properties"})


def canonical(c):
    c.refine(M + "_canonical_site_indices", """
def _canonical_site_indices(mobile_ion_indices, local_env_indices):
    out = []
    for s in mobile_ion_indices + local_env_indices:
        if s not in out:
            out.append(s)
    return tuple(out)
""", what=("ret", "raise"), alts=("""
def _canonical_site_indices(mobile_ion_indices, local_env_indices):
    out = []
    seen = set()
    for s in mobile_ion_indices + local_env_indices:
        if s in seen:
            continue
        seen.add(s)
        out.append(s)
    return tuple(out)
""",))
    c.refine(M + "_event_indices", """
def _event_indices(event):
    m = _normalize_index_sequence(event.mobile_ion_indices, "event.mobile_ion_indices")
    l = _normalize_index_sequence(event.local_env_indices, "event.local_env_indices", allow_empty=True)
    return m, l, _canonical_site_indices(m, l)
""", what=("ret",), opaque={M + "_normalize_index_sequence", M + "_canonical_site_indices"})
    c.refine(M + "_normalize_index_sequence", """
def _normalize_index_sequence(values, field_name, allow_empty=False):
    if not isinstance(values, (list, tuple)):
        raise TypeError("type")
    if not values and not allow_empty:
        raise ValueError("empty")
    for v in values:
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError("int")
    return tuple(int(v) for v in values)
""", what=("ret", "raise"))


def selectors(c):
    c.refine(LB + "._selected_sites", """
def _selected_sites(self, sites, event, occupations):
    m, l, k = _event_indices(event)
    if isinstance(sites, tuple):
        return sites
    if sites == "canonical":
        return k
    if sites == "local_env":
        return l
    if sites == "mobile_ion":
        return m
    if sites == "from":
        return (m[0],)
    if sites == "to":
        return (m[1],)
    if sites == "all":
        return tuple(range(len(occupations)))
    raise ValueError("selector")
""", what=("ret", "raise"), opaque={M + "_event_indices"})
    c.refine(LB + "._occupation_pattern", """
def _occupation_pattern(self, sites, occupations):
    return tuple(int(occupations[s]) for s in sites)
""", what=("ret",))
    c.refine(LB + "._species_for_site", """
def _species_for_site(self, site_index, occupation):
    if site_index not in self.site_species:
        raise ValueError("site")
    if occupation not in self.site_species[site_index]:
        raise ValueError("state")
    return self.site_species[site_index][occupation]
""", what=("ret", "raise"))


def matching(c):
    OP = {M + "_event_indices", LB + "._selected_sites", LB + "._occupation_pattern", LB + "._species_for_site",
          M + "_count_matches", LB + "._event_constraints_match"}
    c.refine(LB + "._rule_matches", """
def _rule_matches(self, rule, simulation_state, event):
    if not self._event_constraints_match(rule, event):
        return False
    occ = simulation_state.occupations
    t = rule["type"]
    if t == "constant":
        return True
    if t == "exact":
        k = _event_indices(event)[2]
        return k == rule["canonical_site_indices"] and self._occupation_pattern(k, occ) == rule["occupations"]
    if t == "pattern":
        now = self._occupation_pattern(self._selected_sites(rule["sites"], event, occ), occ)
        if len(now) != len(rule["pattern"]):
            raise ValueError("length")
        return all(e == "*" or e == a for e, a in zip(rule["pattern"], now))
    if t == "state_count":
        now = self._occupation_pattern(self._selected_sites(rule["sites"], event, occ), occ)
        return _count_matches(sum(1 for v in now if v == rule["state"]), rule)
    if t == "species_count":
        sites = self._selected_sites(rule["sites"], event, occ)
        now = self._occupation_pattern(sites, occ)
        n = sum(1 for s, o in zip(sites, now) if self._species_for_site(s, o) in set(rule["species"]))
        return _count_matches(n, rule)
    raise ValueError("type")
""", what=("ret", "raise"), opaque=OP)
    c.refine(LB + "._event_constraints_match", """
def _event_constraints_match(self, rule, event):
    m, l, k = _event_indices(event)
    return not ("mobile_ion_indices" in rule and rule["mobile_ion_indices"] != m) and not (
        "local_env_indices" in rule and rule["local_env_indices"] != l)
""", what=("ret",), opaque={M + "_event_indices"})
    c.refine(M + "_count_matches", """
def _count_matches(count, constraints):
    if "count" in constraints and count != constraints["count"]:
        return False
    if "min_count" in constraints and count < constraints["min_count"]:
        return False
    if "max_count" in constraints and count > constraints["max_count"]:
        return False
    return True
""", what=("ret",))


def parsing(c):
    c.refine(M + "_normalize_state_value", """
def _normalize_state_value(value, field_name="state"):
    aliases = {"occupied": 0, "match": 0, "template": 0, "vacant": 1, "vacancy": 1, "mismatch": 1, "other": 1}
    if isinstance(value, bool):
        raise TypeError("bool")
    if isinstance(value, int):
        if value < 0:
            raise ValueError("neg")
        return int(value)
    if isinstance(value, str):
        token = value.strip().lower()
        if token in aliases:
            return aliases[token]
        n = int(token)
        if n < 0:
            raise ValueError("neg")
        return n
    raise ValueError("kind")
""", what=("ret", "raise"))
    c.refine(M + "_normalize_pattern", """
def _normalize_pattern(values):
    if not isinstance(values, (list, tuple)):
        raise TypeError("t")
    if not values:
        raise ValueError("e")
    return tuple("*" if isinstance(v, str) and v.strip() == "*" else _normalize_state_value(v, "pattern") for v in values)
""", what=("ret", "raise"), opaque={M + "_normalize_state_value"})
    c.refine(M + "_normalize_occupations", """
def _normalize_occupations(values, field_name="occupations"):
    if not isinstance(values, (list, tuple)):
        raise TypeError("t")
    if not values:
        raise ValueError("e")
    return tuple(_normalize_state_value(v, field_name) for v in values)
""", what=("ret", "raise"), opaque={M + "_normalize_state_value"})
    c.refine(M + "_normalize_properties", """
def _normalize_properties(properties):
    if not isinstance(properties, dict) or not properties:
        raise ValueError("p")
    out = {}
    for k, v in properties.items():
        if not isinstance(k, str) or not k.strip():
            raise ValueError("k")
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise TypeError("v")
        out[k] = float(v)
    return out
""", what=("ret", "raise"))
    c.refine(M + "_properties_from_rule", """
def _properties_from_rule(rule):
    p = dict(rule.get("properties", {}))
    if "barrier" in rule:
        if isinstance(rule["barrier"], bool) or not isinstance(rule["barrier"], (int, float)):
            raise TypeError("b")
        p.setdefault("barrier", float(rule["barrier"]))
    return _normalize_properties(p)
""", what=("ret", "raise"), opaque={M + "_normalize_properties"})
    c.refine(M + "_normalize_sites_spec", """
def _normalize_sites_spec(value, default):
    if value is None:
        return default
    if isinstance(value, str):
        if value.strip() not in {"canonical", "local_env", "mobile_ion", "from", "to", "all"}:
            raise ValueError("s")
        return value.strip()
    return _normalize_index_sequence(value, "sites")
""", what=("ret", "raise"), opaque={M + "_normalize_index_sequence"})
    c.refine(M + "_normalize_count_constraints", """
def _normalize_count_constraints(rule):
    out = {}
    for k in ("count", "min_count", "max_count"):
        if k not in rule:
            continue
        v = rule[k]
        if isinstance(v, bool) or not isinstance(v, int):
            raise TypeError("int")
        if v < 0:
            raise ValueError("neg")
        out[k] = int(v)
    if not out:
        raise ValueError("none")
    if "count" in out and ("min_count" in out or "max_count" in out):
        raise ValueError("both")
    return out
""", what=("ret", "raise"))
    c.refine(M + "_coerce_rule_type", """
def _coerce_rule_type(rule):
    t = rule.get("type")
    if t is None:
        if "occupations" in rule and "mobile_ion_indices" in rule:
            return "exact"
        if "pattern" in rule:
            return "pattern"
        if "species" in rule:
            return "species_count"
        if "state" in rule or "occupation" in rule:
            return "state_count"
        return "constant"
    if not isinstance(t, str) or not t.strip():
        raise ValueError("t")
    if t.strip() not in {"constant", "exact", "pattern", "state_count", "species_count"}:
        raise ValueError("t")
    return t.strip()
""", what=("ret", "raise"))
    c.refine(M + "_normalize_site_species", """
def _normalize_site_species(site_species):
    if site_species is None:
        return {}
    if not isinstance(site_species, dict):
        raise TypeError("m")
    out = {}
    for k, states in site_species.items():
        i = int(k)
        if not isinstance(states, dict):
            raise TypeError("s")
        row = {}
        for s, species in states.items():
            n = _normalize_state_value(s, "site_species state")
            if not isinstance(species, str) or not species.strip():
                raise ValueError("sp")
            row[n] = species
        out[i] = row
    return out
""", what=("ret", "raise"), opaque={M + "_normalize_state_value"})


def rule(c):
    OP = {M + x for x in ("_normalize_index_sequence", "_normalize_occupations", "_normalize_pattern", "_normalize_sites_spec",
                          "_normalize_state_value", "_normalize_count_constraints", "_properties_from_rule",
                          "_coerce_rule_type", "_canonical_site_indices")}
    c.refine(M + "_normalize_rule", """
def _normalize_rule(rule, default_name):
    if not isinstance(rule, dict):
        raise TypeError("d")
    t = _coerce_rule_type(rule)
    out = {"name": str(rule.get("name") or default_name), "type": t, "properties": _properties_from_rule(rule)}
    if "mobile_ion_indices" in rule:
        out["mobile_ion_indices"] = _normalize_index_sequence(rule["mobile_ion_indices"], "mobile_ion_indices")
    if "local_env_indices" in rule:
        out["local_env_indices"] = _normalize_index_sequence(rule["local_env_indices"], "local_env_indices", allow_empty=True)
    if t == "exact":
        m = _normalize_index_sequence(rule.get("mobile_ion_indices"), "mobile_ion_indices")
        l = _normalize_index_sequence(rule.get("local_env_indices"), "local_env_indices", allow_empty=True)
        k = _canonical_site_indices(m, l)
        o = _normalize_occupations(rule.get("occupations"))
        if len(o) != len(k):
            raise ValueError("len")
        out["mobile_ion_indices"] = m
        out["local_env_indices"] = l
        out["occupations"] = o
        out["canonical_site_indices"] = k
    elif t == "pattern":
        out["sites"] = _normalize_sites_spec(rule.get("sites"), "canonical")
        out["pattern"] = _normalize_pattern(rule.get("pattern"))
    elif t == "state_count":
        out["sites"] = _normalize_sites_spec(rule.get("sites"), "local_env")
        if "occupation" in rule:
            out["state"] = _normalize_state_value(rule["occupation"], "occupation")
        else:
            out["state"] = _normalize_state_value(rule.get("state"), "state")
        out.update(_normalize_count_constraints(rule))
    elif t == "species_count":
        out["sites"] = _normalize_sites_spec(rule.get("sites"), "local_env")
        sp = rule.get("species")
        if isinstance(sp, str):
            out["species"] = (sp,)
        elif isinstance(sp, (list, tuple)) and sp:
            for item in sp:
                if not isinstance(item, str) or not item.strip():
                    raise ValueError("sp")
            out["species"] = tuple(item for item in sp)
        else:
            raise ValueError("sp")
        out.update(_normalize_count_constraints(rule))
    return out
""", what=("ret", "raise"), opaque=OP)


def table(c):
    """Rules are kept in the order given; a duplicate exact rule is refused; building replaces the table."""
    c.refine(LB + ".add_rule", """
def add_rule(self, rule):
    r = _normalize_rule(rule, default_name=f"rule_{len(self.rules)}")
    if r["type"] == "exact":
        key = (r["mobile_ion_indices"], r["canonical_site_indices"], r["occupations"])
        if key in self._exact_rule_keys:
            raise ValueError("dup")
        self._exact_rule_keys.add(key)
    self.rules.append(r)
""", what=("raise", "state"), opaque={M + "_normalize_rule"})
    for name, params, extra in (("add_state_count_rule", "state", '"type": "state_count", "sites": sites, "state": state'),
                                ("add_species_count_rule", "species", '"type": "species_count", "sites": sites, "species": species')):
        c.refine(LB + "." + name, f"""
def {name}(self, {params}, barrier=None, properties=None, name=None, sites="local_env", count=None, min_count=None, max_count=None):
    rule = {{{extra}, "properties": dict(properties or {{}})}}
    if barrier is not None:
        rule["barrier"] = barrier
    if name is not None:
        rule["name"] = name
    if count is not None:
        rule["count"] = count
    if min_count is not None:
        rule["min_count"] = min_count
    if max_count is not None:
        rule["max_count"] = max_count
    self.add_rule(rule)
    return self.rules[-1]["name"]
""", what=(), calls=(LB + ".add_rule",), opaque={LB + ".add_rule"})
    c.refine(LB + ".add_pattern_rule", """
def add_pattern_rule(self, pattern, barrier=None, properties=None, name=None, sites="canonical"):
    rule = {"type": "pattern", "sites": sites, "pattern": list(pattern), "properties": dict(properties or {})}
    if barrier is not None:
        rule["barrier"] = barrier
    if name is not None:
        rule["name"] = name
    self.add_rule(rule)
    return self.rules[-1]["name"]
""", what=(), calls=(LB + ".add_rule",), opaque={LB + ".add_rule"})
    c.refine(LB + ".add_exact_rule", """
def add_exact_rule(self, mobile_ion_indices, local_env_indices, occupations, barrier=None, properties=None, name=None):
    rule = {"type": "exact", "mobile_ion_indices": list(mobile_ion_indices), "local_env_indices": list(local_env_indices),
            "occupations": list(occupations), "properties": dict(properties or {})}
    if barrier is not None:
        rule["barrier"] = barrier
    if name is not None:
        rule["name"] = name
    self.add_rule(rule)
    return self.rules[-1]["name"]
""", what=(), calls=(LB + ".add_rule",), opaque={LB + ".add_rule"})
    c.refine(LB + ".build", """
def build(self, rules=None, default_properties=None, default_barrier=None, default_property=None, probability_mode=None,
          probability_property=None, site_species=None):
    if default_properties is not None:
        self.default_properties = _normalize_properties(default_properties)
    if default_barrier is not None:
        if self.default_properties is None:
            self.default_properties = {}
        self.default_properties.setdefault("barrier", float(default_barrier))
    if default_property is not None:
        self.default_property = default_property
    if probability_mode is not None:
        self.probability_mode = probability_mode
    if probability_property is not None:
        self.probability_property = probability_property
    if site_species is not None:
        self.site_species = _normalize_site_species(site_species)
    if self.probability_mode != "barrier_arrhenius":
        raise ValueError("mode")
    if rules is None:
        rules = []
    if not isinstance(rules, list):
        raise TypeError("r")
    self.rules = []
    self._exact_rule_keys = set()
    for rule in rules:
        self.add_rule(rule)
""", what=("raise", "state"), calls=(LB + ".add_rule",),
             opaque={LB + ".add_rule", M + "_normalize_properties", M + "_normalize_site_species"})
    c.refine(LB + ".__init__", """
def __init__(self, rules=None, name="LocalBarrierModel", default_properties=None, default_barrier=None,
             default_property="barrier", probability_mode="barrier_arrhenius", probability_property="barrier",
             site_species=None):
    self.name = name
    self.default_property = default_property
    self.probability_mode = probability_mode
    self.probability_property = probability_property
    self.site_species = _normalize_site_species(site_species)
    self.default_properties = None if default_properties is None else _normalize_properties(default_properties)
    if default_barrier is not None:
        if isinstance(default_barrier, bool) or not isinstance(default_barrier, (int, float)):
            raise TypeError("b")
        if self.default_properties is None:
            self.default_properties = {}
        self.default_properties.setdefault("barrier", float(default_barrier))
    self.rules = []
    self._exact_rule_keys = set()
    if rules is not None:
        self.build(rules=rules)
""", what=("raise", "state"), calls=(LB + ".build",),
             opaque={LB + ".build", M + "_normalize_properties", M + "_normalize_site_species"})



def constructors(c):
    """The shortcuts build the table they describe."""
    c.refine(LB + ".constant_barrier", """
def constant_barrier(cls, barrier, name="ConstantBarrierModel", **kwargs):
    return cls(name=name, default_barrier=barrier, **kwargs)
""", what=("ret",))
    c.refine(LB + ".entry_from_event_state", """
def entry_from_event_state(cls, event, state, properties, name=None):
    m, l, k = _event_indices(event)
    out = {"type": "exact", "mobile_ion_indices": list(m), "local_env_indices": list(l),
           "occupations": [int(state.occupations[i]) for i in k], "properties": dict(properties)}
    if name is not None:
        out["name"] = name
    return out
""", what=("ret",), opaque={M + "_event_indices"})
    c.refine(LB + ".from_exact_entries", """
def from_exact_entries(cls, entries, name="LocalBarrierModel", default_properties=None, default_barrier=None,
                       default_property="barrier", probability_mode="barrier_arrhenius", probability_property="barrier",
                       site_species=None):
    rules = []
    for index, entry in enumerate(entries):
        payload = entry.as_dict() if hasattr(entry, "as_dict") else dict(entry)
        payload["type"] = "exact"
        payload.setdefault("name", f"exact_{index}")
        rules.append(payload)
    return cls(rules=rules, name=name, default_properties=default_properties, default_barrier=default_barrier,
               default_property=default_property, probability_mode=probability_mode,
               probability_property=probability_property, site_species=site_species)
""", what=("ret",), opaque={LB + ".__init__"})


OBLIGATIONS = [choice, canonical, selectors, matching, parsing, rule, table, constructors]
