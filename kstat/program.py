"""Source model: every module of the package parsed, names resolved statically."""
from __future__ import annotations

import ast
import builtins
import os

BUILTINS = set(dir(builtins))


class AnalysisError(Exception):
    """The analysis cannot be performed (vanished anchor, unparsable tree)."""


class Func:
    def __init__(self, module, node, qual, cls=None, enclosing=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        self.enclosing = enclosing
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(_dotted(d.func if isinstance(d, ast.Call) else d))
        last = [d.split(".")[-1] for d in self.decorators if d]
        self.is_property = "property" in last or "cached_property" in last
        self.is_static = "staticmethod" in last
        self.is_class = "classmethod" in last
        self.is_setter = "setter" in last
        self.is_abstract = "abstractmethod" in last

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], a.vararg, [x.arg for x in a.kwonlyargs], a.kwarg

    def annotation(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        return None

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual, self.name = module, node, qual, node.name
        self.methods = {}
        self.setters = {}
        self.class_attrs = {}
        self.fields = []  # dataclass fields (name, annotation, default)
        self.dataclass = None
        for d in node.decorator_list:
            name = _dotted(d.func if isinstance(d, ast.Call) else d)
            if name and name.split(".")[-1] == "dataclass":
                self.dataclass = {}
                if isinstance(d, ast.Call):
                    for kw in d.keywords:
                        if isinstance(kw.value, ast.Constant):
                            self.dataclass[kw.arg] = kw.value.value
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(module, st, f"{qual}.{st.name}", cls=self)
                if f.is_setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if self.dataclass is not None and not _is_classvar(st.annotation):
                    self.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.class_attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value

    def __repr__(self):
        return f"<Class {self.qual}>"


def _is_classvar(ann):
    return isinstance(ann, ast.Subscript) and (_dotted(ann.value) or "").endswith("ClassVar")


def _dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Module:
    def __init__(self, program, name, path, tree, is_pkg):
        self.program, self.name, self.path, self.tree, self.is_pkg = program, name, path, tree, is_pkg
        self.functions, self.classes = {}, {}
        self.consts = {}      # name -> ast expr (last module-level assignment)
        self.const_mut = {}   # names assigned more than once or mutated
        self.imports = {}     # name -> dotted target
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = Func(self, st, f"{self.name}.{st.name}")
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st, f"{self.name}.{st.name}")
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.const_mut[t.id] = t.id in self.consts
                        self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.const_mut[st.target.id] = st.target.id in self.consts
                self.consts[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.imports[al.asname] = al.name
                    else:
                        self.imports[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_from(st)
                for al in st.names:
                    self.imports[al.asname or al.name] = f"{base}.{al.name}" if base else al.name
            elif isinstance(st, (ast.If,)):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    # alternatives: keep the main definition
                    pass
                self._scan(st.orelse)
            elif isinstance(st, ast.With):
                self._scan(st.body)

    def resolve_from(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: -(st.level - 1)]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)


_PARSED: dict = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _PARSED:
        with open(path, encoding="utf-8") as fh:
            _PARSED[key] = ast.parse(fh.read(), filename=path)
    return _PARSED[key]


class Program:
    def __init__(self, root, package="kmcpy", overlay=None):
        self.root, self.package = root, package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} is missing")
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                if overlay and rel in overlay:
                    self.modules[name] = Module(self, name, rel, overlay[rel], is_pkg)
                    continue
                try:
                    tree = parse_file(path)
                except SyntaxError as exc:
                    raise AnalysisError(f"{rel}: {exc}") from exc
                self.modules[name] = Module(self, name, rel, tree, is_pkg)
        self._mro_cache = {}
        self._subs = None
        self._method_index = None
        self._attr_types = {}

    # ------------------------------------------------------------ resolution
    def resolve(self, dotted, _depth=0):
        """dotted name -> ('module'|'func'|'class'|'const'|'ext', object)."""
        if _depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if not (dotted == self.package or dotted.startswith(self.package + ".")):
            return ("ext", dotted)
        head, _, tail = dotted.rpartition(".")
        kind, obj = self.resolve(head, _depth + 1) if head else ("ext", head)
        if kind == "module":
            return self.lookup(obj, tail, _depth + 1)
        if kind == "class":
            m = self.find_method(obj, tail)
            if m:
                return ("func", m)
            return ("ext", dotted)
        return ("ext", dotted)

    def mutated_globals(self):
        """(module, name) of module-level tables that some function writes to."""
        if getattr(self, "_mutated", None) is None:
            self._mutated = set()
            for m in self.modules.values():
                for fn in ast.walk(m.tree):
                    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self._mutated |= {k for k in (self._global_of(m, n) for n in _written_names(fn)) if k}
        return self._mutated

    def _global_of(self, module, name):
        if name in module.consts:
            return module.name, name
        if name in module.imports:
            kind, obj = self.resolve(module.imports[name])
            if kind == "const":
                return obj[0].name, obj[1]
        return None

    def lookup(self, module, name, _depth=0):
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.consts:
            # aliases of functions / classes
            node = module.consts[name]
            if isinstance(node, ast.Name) and node.id != name:
                r = self.lookup(module, node.id, _depth + 1)
                if r and r[0] in ("func", "class", "module"):
                    return r
            return ("const", (module, name))
        if name in module.imports:
            return self.resolve(module.imports[name], _depth + 1)
        sub = f"{module.name}.{name}"
        if sub in self.modules:
            return ("module", self.modules[sub])
        # lazily exported names (module-level __getattr__): unique public definition
        if module.is_pkg and "__getattr__" in module.functions:
            hits = [m.classes.get(name) or m.functions.get(name) for m in self.modules.values()
                    if name in m.classes or name in m.functions]
            if len(hits) == 1:
                return ("class" if isinstance(hits[0], Class) else "func", hits[0])
        return ("ext", f"{module.name}.{name}")

    def mro(self, cls):
        if cls.qual in self._mro_cache:
            return self._mro_cache[cls.qual]
        out = [cls]
        self._mro_cache[cls.qual] = out
        for b in cls.node.bases:
            d = _dotted(b)
            if not d:
                continue
            parts = d.split(".")
            r = self.lookup(cls.module, parts[0])
            for p in parts[1:]:
                if r[0] == "module":
                    r = self.lookup(r[1], p)
                else:
                    r = ("ext", d)
            if r[0] == "class":
                for c in self.mro(r[1]):
                    if c not in out:
                        out.append(c)
            else:
                ext = r[1] if r[0] == "ext" else d
                out.append(ext)
        self._mro_cache[cls.qual] = out
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def functions(self):
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def mentions_attr(self, name):
        """Does any module of the package use an attribute of this name?"""
        if not hasattr(self, "_attr_mentions"):
            self._attr_mentions = {n.attr for m in self.modules.values() for n in ast.walk(m.tree)
                                   if isinstance(n, ast.Attribute)}
        return name in self._attr_mentions

    def subclasses(self, cls):
        return [c for c in self.classes() if cls in self.mro(c) and c is not cls]

    def method_index(self):
        if self._method_index is None:
            idx = {}
            for c in self.classes():
                for n, m in c.methods.items():
                    idx.setdefault(n, []).append(m)
            self._method_index = idx
        return self._method_index

    def get_class(self, dotted, required=True):
        k, o = self.resolve(dotted)
        if k == "class":
            return o
        # moved within the package: unique class of that name
        name = dotted.rpartition(".")[2]
        hits = [c for c in self.classes() if c.name == name]
        if len(hits) == 1:
            return hits[0]
        if required:
            raise AnalysisError(f"anchor class {dotted} not found")
        return None

    def get_func(self, dotted, required=True):
        k, o = self.resolve(dotted)
        if k == "func":
            return o
        head, _, name = dotted.rpartition(".")
        kc, oc = self.resolve(head)
        if kc != "class":
            cname = head.rpartition(".")[2]
            hits = [c for c in self.classes() if c.name == cname]
            if len(hits) == 1:
                m = self.find_method(hits[0], name)
                if m:
                    return m
            hits = [f for f in self.functions() if f.cls is None and f.name == name]
            if len(hits) == 1:
                return hits[0]
        if required:
            raise AnalysisError(f"anchor function {dotted} not found")
        return None

    def dataclass_fields(self, cls):
        out = {}
        for c in reversed([c for c in self.mro(cls) if isinstance(c, Class)]):
            if c.dataclass is not None:
                for n, ann, default in c.fields:
                    out[n] = (ann, default, c)
        return out

    def is_dataclass(self, cls):
        return any(isinstance(c, Class) and c.dataclass is not None for c in self.mro(cls))

    # ------------------------------------------------------------ type annotations
    def ann_type(self, module, ann):
        """Annotation AST -> type: ('cls', Class) | ('list', T) | ('opt', T) | ('name', str) | None."""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(module, ast.parse(ann.value, mode="eval").body)
                except SyntaxError:
                    return None
            if ann.value is None:
                return ("name", "None")
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l, r = self.ann_type(module, ann.left), self.ann_type(module, ann.right)
            if r == ("name", "None"):
                return ("opt", l)
            if l == ("name", "None"):
                return ("opt", r)
            return None
        if isinstance(ann, ast.Subscript):
            d = (_dotted(ann.value) or "").split(".")[-1]
            if d == "Optional":
                return ("opt", self.ann_type(module, ann.slice))
            if d in ("list", "List", "Sequence", "Iterable", "set", "Set"):
                return ("list", self.ann_type(module, ann.slice))
            if d in ("dict", "Dict", "Mapping", "MutableMapping"):
                if isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2:
                    return ("dict", self.ann_type(module, ann.slice.elts[1]))
                return ("name", "dict")
            if d in ("tuple", "Tuple"):
                if isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2 and isinstance(
                        ann.slice.elts[1], ast.Constant) and ann.slice.elts[1].value is Ellipsis:
                    return ("list", self.ann_type(module, ann.slice.elts[0]))
                return ("name", "tuple")
            return None
        d = _dotted(ann)
        if d:
            parts = d.split(".")
            r = self.lookup(module, parts[0])
            for p in parts[1:]:
                if r[0] == "module":
                    r = self.lookup(r[1], p)
            if r[0] == "class":
                return ("cls", r[1])
            if parts[-1] in ("int", "float", "str", "bool", "list", "dict", "tuple", "set"):
                return ("name", parts[-1])
            # unique class name in the package
            hits = [c for c in self.classes() if c.name == parts[-1]]
            if len(hits) == 1:
                return ("cls", hits[0])
            return ("name", d)
        return None

    def attr_type(self, cls, name):
        """Declared type of an instance attribute."""
        key = (cls.qual, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        res = None
        for c in self.mro(cls):
            if not isinstance(c, Class):
                continue
            for n, ann, _ in c.fields:
                if n == name:
                    res = self.ann_type(c.module, ann)
            if res is None:
                for m in c.methods.values():
                    for st in ast.walk(m.node):
                        if isinstance(st, ast.AnnAssign) and _is_self_attr(st.target, m, name):
                            res = res or self.ann_type(c.module, st.annotation)
                        elif isinstance(st, ast.Assign):
                            for tg in st.targets:
                                if _is_self_attr(tg, m, name):
                                    v = st.value
                                    if isinstance(v, ast.Name):
                                        a = m.annotation(v.id)
                                        if a is not None:
                                            res = res or self.ann_type(c.module, a)
                                    elif isinstance(v, ast.Call):
                                        d = _dotted(v.func)
                                        if d and "." not in d:
                                            r = self.lookup(c.module, d)
                                            if r[0] == "class":
                                                res = res or ("cls", r[1])
                                            elif d in ("int", "float", "str"):
                                                res = res or ("name", d)
            if res is not None:
                break
            if name in c.methods and c.methods[name].is_property:
                res = self.ann_type(c.module, c.methods[name].node.returns)
                break
        self._attr_types[key] = res
        return res


def _is_self_attr(tg, m, name):
    ps = m.node.args.posonlyargs + m.node.args.args
    return (isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name)
            and ps and tg.value.id == ps[0].arg)


def strip_opt(t):
    while t and t[0] == "opt":
        t = t[1]
    return t


_MUTATE = {"append", "extend", "add", "update", "pop", "clear", "insert", "remove", "setdefault", "discard", "popitem"}


def _written_names(fn):
    """Names of other scopes whose object a function modifies or rebinds."""
    glob = {n for x in ast.walk(fn) if isinstance(x, ast.Global) for n in x.names}
    local = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    local |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - glob
    out = set(glob)
    for x in ast.walk(fn):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
            out.add(x.value.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in _MUTATE and isinstance(x.func.value, ast.Name):
            out.add(x.func.value.id)
    return out - local
