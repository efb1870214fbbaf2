from kstat.terms import FALSE, and_, mk, subterms

TITLE = "Occupation objects hold valid values and conversions keep the configuration"
B = "kmcpy.structure.basis."
BF, OB, CB, OC = B + "BasisFunction", B + "OccupationBasis", B + "ChebyshevBasis", B + "Occupation"
INIT, VAL, GB, TB = OC + ".__init__", OC + "._validate", B + "get_basis", OC + ".to_basis"


def values(c):
    """What each basis stores for the template species and for anything else."""
    for cls, table in ((OB, dict(match_value=1, mismatch_value=0, vacant_value=0, occupied_value=1)),
                       (CB, dict(match_value=0, mismatch_value=1))):
        for k, v in table.items():
            c.refine(f"{cls}.{k}", f"def {k}(self):\n    return {v}\n", what=("ret",))
    c.refine(CB + ".occupied_value", "def occupied_value(self):\n    return 0\n", what=("ret",))
    c.refine(CB + ".vacant_value", "def vacant_value(self):\n    return 1\n", what=("ret",))
    c.refine(OB + ".valid_values", "def valid_values(self):\n    return {0, 1}\n", what=("ret",))
    c.refine(CB + ".valid_values", "def valid_values(self):\n    return set(range(self.max_states))\n", what=("ret",))
    c.refine(CB + ".__init__", """
def __init__(self, max_states=2):
    if int(max_states) < 2:
        raise ValueError("states")
    self.max_states = int(max_states)
""", what=("state", "raise"), places={"max_states"})
    c.refine(GB, """
def get_basis(name, **kwargs):
    if name not in BASIS_REGISTRY:
        raise ValueError("unknown")
    return BASIS_REGISTRY[name](**kwargs)
""", what=("ret", "raise"))


def conversions(c):
    """A value is the template species in one basis exactly when its converted value is."""
    c.refine(BF + ".convert_to", """
def convert_to(self, value, target_basis):
    return target_basis.match_value if value == self.match_value else target_basis.mismatch_value
""", what=("ret",))
    c.refine(BF + ".flip", """
def flip(self, value):
    return self.mismatch_value if value == self.match_value else self.match_value
""", what=("ret",))
    c.refine(CB + ".flip", "def flip(self, value):\n    return 1 if value == 0 else 0\n", what=("ret",))
    c.refine(OB + ".flip", "def flip(self, value):\n    return 1 - value\n", what=("ret",), alts=(
        "def flip(self, value):\n    return 0 if value == 1 else 1\n", "def flip(self, value):\n    return 1 if value == 0 else 0\n"))
    c.refine(OB + ".to_chebyshev", "def to_chebyshev(self, value):\n    return 1 if value == 0 else 0\n", what=("ret",), alts=(
        "def to_chebyshev(self, value):\n    return 0 if value == 1 else 1\n",))
    c.refine(OB + ".from_chebyshev", "def from_chebyshev(self, value):\n    return 1 if value == 0 else 0\n", what=("ret",))
    c.refine(CB + ".to_occupation", "def to_occupation(self, value):\n    return 1 if value == 0 else 0\n", what=("ret",))
    c.refine(CB + ".from_occupation", "def from_occupation(self, value):\n    return 0 if value == 1 else 1\n", what=("ret",), alts=(
        "def from_occupation(self, value):\n    return 1 if value == 0 else 0\n",))
    for cls, occ in ((OB, 1), (CB, 0)):
        c.refine(cls + ".is_occupied", f"def is_occupied(self, value):\n    return value == {occ}\n", what=("ret",))
        c.refine(cls + ".is_vacant", f"def is_vacant(self, value):\n    return value == {1 - occ}\n", what=("ret",))
    c.refine(TB, """
def to_basis(self, target_basis):
    b = get_basis(target_basis) if isinstance(target_basis, str) else target_basis
    if b.__class__ == self._basis_obj.__class__:
        return Occupation(self._data, basis=b)
    return Occupation(np.array([self._basis_obj.convert_to(v, b) for v in self._data]), basis=b, validate=False)
""", what=("ret", "raise", "state"), opaque={INIT, GB, BF + ".convert_to"})
    c.refine(OC + ".equivalent_to", """
def equivalent_to(self, other):
    if not isinstance(other, Occupation):
        return False
    if self._basis_obj.__class__ == other._basis_obj.__class__:
        return np.array_equal(self._data, other._data)
    return np.array_equal(self.to_basis("occupation")._data, other.to_basis("occupation")._data)
""", what=("ret", "state"), opaque={TB})


def contents(c):
    """An occupation is built from, and returns, its own values; nothing it hands out is shared."""
    c.refine(INIT, """
def __init__(self, data, basis='chebyshev', validate=True):
    if isinstance(basis, str):
        self._basis_obj = get_basis(basis)
        self._basis_name = basis
    elif isinstance(basis, BasisFunction):
        self._basis_obj = basis
        self._basis_name = basis.name
    else:
        raise ValueError("basis")
    self._data = np.array(data, dtype=type(self._basis_obj.match_value))
    if validate:
        self._validate()
""", what=("state", "raise"), calls=(VAL,), opaque={VAL, GB})
    c.refine(VAL, """
def _validate(self):
    if set(self._data) - self._basis_obj.valid_values:
        raise ValueError("values")
""", what=("raise", "state"))
    c.refine(OC + ".data", "def data(self):\n    return self._data.copy()\n", what=("ret", "state"))
    c.owned(INIT, "_data", "P26.values are the object's own", param="data", opaque={VAL, GB})
    c.handed_out(OC + ".data", "_data", "P26.data is a copy")
    c.refine(OC + ".values", "def values(self):\n    return self._data.tolist()\n", what=("ret", "state"), alts=(
        "def values(self):\n    return list(self._data.tolist())\n",))
    c.refine(OC + ".__len__", "def __len__(self):\n    return len(self._data)\n", what=("ret",))
    c.refine(OC + ".__iter__", "def __iter__(self):\n    return iter(self._data.tolist())\n", what=("ret",), alts=(
        "def __iter__(self):\n    return iter(self.values)\n",))
    c.refine(OC + ".__getitem__", """
def __getitem__(self, index):
    if isinstance(index, (slice, list, tuple, np.ndarray)):
        return Occupation(self._data[index], basis=self._basis_obj, validate=False)
    return self._data[index].item()
""", what=("ret", "state"), opaque={INIT})
    c.refine(OC + ".__eq__", """
def __eq__(self, other):
    if not isinstance(other, Occupation):
        return False
    return self._basis_name == other._basis_name and np.array_equal(self._data, other._data)
""", what=("ret",))
    c.refine(OC + ".__ne__", "def __ne__(self, other):\n    return not self.__eq__(other)\n", what=("ret",), opaque={OC + ".__eq__"}, alts=(
        "def __ne__(self, other):\n    return not (self == other)\n",))
    c.refine(OC + ".array_equal", "def array_equal(self, array):\n    return np.array_equal(self._data, np.array(array))\n", what=("ret",),
             alts=("def array_equal(self, array):\n    return np.array_equal(self._data, array)\n",))
    for name, v in (("match", "match_value"), ("mismatch", "mismatch_value"), ("occupied", "occupied_value"), ("vacant", "vacant_value")):
        c.refine(f"{OC}.count_{name}", f"def count_{name}(self):\n    return int(np.sum(self._data == self._basis_obj.{v}))\n", what=("ret",))
        c.refine(f"{OC}.get_{name}_indices",
                 f"def get_{name}_indices(self):\n    return np.where(self._data == self._basis_obj.{v})[0].tolist()\n", what=("ret",))
    c.refine(OC + ".copy", "def copy(self):\n    return Occupation(self._data.copy(), basis=self._basis_obj, validate=False)\n",
             what=("ret", "state"), opaque={INIT}, alts=(
        "def copy(self):\n    return Occupation(self._data, basis=self._basis_obj, validate=False)\n",))
    for name, v in (("zeros", "vacant_value"), ("ones", "occupied_value")):
        c.refine(f"{OC}.{name}", f"""
def {name}(cls, n_sites, basis='chebyshev'):
    b = get_basis(basis) if isinstance(basis, str) else basis
    return cls(np.full(n_sites, b.{v}, dtype=type(b.{v})), basis=b, validate=False)
""", what=("ret", "raise"), opaque={INIT, GB}, alts=(f"""
def {name}(cls, n_sites, basis='chebyshev'):
    b = get_basis(basis) if isinstance(basis, str) else basis
    return cls(np.full(n_sites, b.{v}), basis=b, validate=False)
""",))
    c.refine(OC + ".random", """
def random(cls, n_sites, basis='chebyshev', fill_fraction=0.5, seed=None):
    if seed is not None:
        np.random.seed(seed)
    u = np.random.random(n_sites)
    b = get_basis(basis) if isinstance(basis, str) else basis
    return cls(np.where(u < fill_fraction, b.occupied_value, b.vacant_value), basis=b, validate=False)
""", what=("ret", "raise"), calls=("numpy.random.seed",), opaque={INIT, GB})


def edits(c):
    """An edit changes the sites it names; a refused edit changes nothing."""
    f = c.func(OC + ".__setitem__")
    r = c.summary(OC + ".__setitem__")
    data = mk("attr", mk("p", "self"), "_data")
    writes = [e for e in r.effects if e.kind == "store" and (e.target is data or e.target.op == "item" and e.target.a[0] is data)]
    inplace = [e for e in writes if e.target is not data]
    where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
    if not writes:
        c.unknown("P26.edit.written", "effects", where, "no write of the values was found")
    elif all(e.value is not mk("p", "value") for e in inplace) and mk("p", "value") not in set().union(*[subterms(e.value) for e in writes]):
        c.bad("P26.edit.written", "effects", where, "the new value is not stored")
    else:
        c.ok("P26.edit.written", "effects", where)
    if not any(e.kind == "raise" and any(t.op == "attr" and t.a[1] == "valid_values" for t in subterms(e.guard)) for e in r.effects):
        c.bad("P26.edit.refused", "effects", where, "an edit is not checked against the basis' valid values")
        return
    for e in inplace:
        for x in r.effects:
            if x.kind == "raise" and x.seq > e.seq and and_(x.guard, e.guard) is not FALSE and not any(
                    y.target is data and e.seq < y.seq < x.seq for y in writes):
                c.bad("P26.edit.refused", "effects", where, f"the value is stored at {e.where} before the edit is refused at {x.where}, "
                                                            "and stays stored")
                break
        else:
            continue
        break
    else:
        c.ok("P26.edit.refused", "effects", where)
    c.refine(OC + ".flip", """
def flip(self, indices):
    data = self._data.copy()
    for k in ([indices] if isinstance(indices, int) else indices):
        data[k] = self._basis_obj.flip(data[k])
    return Occupation(data, basis=self._basis_obj, validate=False)
""", what=("ret", "state"), opaque={INIT})
    c.refine(OC + ".flip_inplace", """
def flip_inplace(self, indices):
    for k in ([indices] if isinstance(indices, int) else indices):
        self._data[k] = self._basis_obj.flip(self._data[k])
""", what=("state",))


OBLIGATIONS = [values, conversions, contents, edits]
