"""Values of simple module-level constants, read from the source."""
import ast


def module_value(program, module, name):
    """The AST of the only top-level assignment to a name, or None."""
    m = program.modules.get(module)
    if m is None:
        return None
    hits = []
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            hits.append(st.value)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value is not None:
            hits.append(st.value)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
            return None
    return hits[0] if len(hits) == 1 else None


def string_set(program, module, name):
    """A set of strings written as a literal, a union of such sets, or a set/frozenset call; None if it is anything else."""
    node = module_value(program, module, name)
    return None if node is None else _strings(program, module, node)


def _strings(program, module, node):
    if isinstance(node, (ast.Set, ast.Tuple, ast.List)):
        out = set()
        for e in node.elts:
            if isinstance(e, ast.Starred):
                s = _strings(program, module, e.value)
                if s is None:
                    return None
                out |= s
            elif isinstance(e, ast.Constant) and isinstance(e.value, str):
                out.add(e.value)
            else:
                return None
        return out
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("set", "frozenset", "tuple", "list") \
            and len(node.args) == 1 and not node.keywords:
        return _strings(program, module, node.args[0])
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitOr, ast.Sub, ast.Add)):
        a, b = _strings(program, module, node.left), _strings(program, module, node.right)
        if a is None or b is None:
            return None
        return a - b if isinstance(node.op, ast.Sub) else a | b
    if isinstance(node, ast.Name):
        return string_set(program, module, node.id)
    if isinstance(node, ast.SetComp) and len(node.generators) == 1 and not node.generators[0].ifs:
        # {f.name for f in fields(Cls)}
        g = node.generators[0]
        if isinstance(g.iter, ast.Call) and getattr(g.iter.func, "id", getattr(g.iter.func, "attr", None)) == "fields" and g.iter.args \
                and isinstance(node.elt, ast.Attribute) and node.elt.attr == "name" and isinstance(g.iter.args[0], ast.Name):
            try:
                return {n for n, _, _ in program.get_class(f"{module}.{g.iter.args[0].id}").fields}
            except Exception:
                return None
    return None
