"""P27: the command line runs what the options and the input file say."""
from kstat.harness import callee_name
from kstat.terms import TRUE, cval, is_const, show

TITLE = "The command line runs exactly the simulation its options describe"
R = "kmcpy.cli.run_kmc."
SEQ, SHAPE, MAP, RUN, MAIN = (R + n for n in ("_parse_sequence", "_parse_supercell_shape", "_parse_mapping", "run_kmc", "main"))
I = "kmcpy.cli.init."
WRITE, IMAIN, IPARSER, TEMPLATE = I + "write_template", I + "main", I + "build_parser", I + "build_template"
M = "kmcpy.cli.main."
MMAIN, MPARSER = M + "main", M + "build_parser"
FROM_FILE = "kmcpy.simulator.config.Configuration.from_file"
CONF = "kmcpy.simulator.config.Configuration"
KMC = "kmcpy.simulator.kmc.KMC"


def parsing(c):
    """Option texts become the values they spell, or are refused."""
    c.refine(SEQ, """
def _parse_sequence(value):
    if value is None or isinstance(value, (list, tuple)):
        return value
    try:
        out = ast.literal_eval(value)
    except (SyntaxError, ValueError):
        out = [x.strip() for x in str(value).split(",") if x.strip()]
    if not isinstance(out, (list, tuple)):
        raise argparse.ArgumentTypeError("sequence")
    return out
""", what=("ret", "raise"))
    c.refine(SHAPE, """
def _parse_supercell_shape(value):
    items = _parse_sequence(value)
    if items is None:
        return None
    try:
        shape = tuple(int(x) for x in items)
    except (TypeError, ValueError):
        raise argparse.ArgumentTypeError("integers")
    if any(isinstance(x, float) and x != n for x, n in zip(items, shape)):
        raise argparse.ArgumentTypeError("integers")
    if len(shape) != 3:
        raise argparse.ArgumentTypeError("three")
    return shape
""", what=("ret", "raise"), opaque={SEQ})
    c.refine(MAP, """
def _parse_mapping(value):
    if value is None or isinstance(value, dict):
        return value
    try:
        out = ast.literal_eval(value)
    except (SyntaxError, ValueError):
        raise argparse.ArgumentTypeError("mapping")
    if not isinstance(out, dict):
        raise argparse.ArgumentTypeError("mapping")
    return out
""", what=("ret", "raise"))


def running(c):
    """An input file decides alone; otherwise every option given is handed over."""
    c.refine(RUN, """
def run_kmc(args):
    if args.input:
        try:
            config = Configuration.from_file(args.input)
        except Exception:
            raise ValueError("load")
    else:
        d = {k: v for k, v in vars(args).items() if k != "input" and v is not None}
        if "supercell_shape" in d:
            d["supercell_shape"] = _parse_supercell_shape(d["supercell_shape"])
        if "site_mapping" in d:
            d["site_mapping"] = _parse_mapping(d["site_mapping"])
        config = Configuration(**d)
    KMC.from_config(config).run()
""", what=("raise",), calls=(KMC + ".from_config", KMC + ".run", FROM_FILE, CONF),
             opaque={SHAPE, MAP, FROM_FILE, KMC + ".from_config", KMC + ".run", CONF + ".__init__", CONF},
             extra_vocab=tuple("~" + n.lstrip("-") for n in OPTIONS[MAIN] if n != "--input"))


def template(c):
    """A template is written where asked and replaces a file only when told to."""
    c.refine(WRITE, """
def write_template(output, force=False):
    p = Path(output).expanduser()
    p.parent.mkdir(parents=True, exist_ok=True)
    if p.exists() and not force:
        raise FileExistsError("exists")
    p.write_text(build_template(), encoding="utf-8")
    return p
""", what=("ret", "raise"), calls=(".write_text",), opaque={TEMPLATE})
    c.refine(IMAIN, """
def main(argv=None):
    args = build_parser().parse_args(argv)
    write_template(args.output, force=args.force)
    return 0
""", what=("ret",), calls=(WRITE,), opaque={WRITE, IPARSER})
    c.refine(MMAIN, """
def main(argv=None):
    parser = build_parser()
    args = parser.parse_args(argv)
    if args.command == "init":
        write_template(args.output, force=args.force)
        return 0
    parser.error("unknown")
    return 2
""", what=("ret",), calls=(WRITE,), opaque={WRITE, MPARSER})


OPTIONS = {
    MAIN: {"--input": {}, "--supercell_shape": {"type": SHAPE}, "--model_file": {}, "--structure_file": {}, "--event_file": {},
           "--site_mapping": {"type": MAP}, "--attempt_frequency": {"type": "float", "default": 1e13},
           "--temperature": {"type": "float", "default": 300}, "--convert_to_primitive_cell": {"action": "store_true"}},
    IPARSER: {"--output": {"default": "input_template.yaml"}, "--force": {"action": "store_true"}},
    MPARSER: {"--output": {"default": "input_template.yaml"}, "--force": {"action": "store_true"}},
}
NEUTRAL = {"help", "metavar", "required"}




def option_table(s):
    """Options registered on a parser: {name: ({keyword: term}, where)}; None when one cannot be read off the source."""
    out = {}
    for e in s.effects:
        if e.kind != "call" or e.target.op != "mcall" or e.target.a[1] != "add_argument":
            continue
        names = [cval(t) for t in e.target.a[2] if is_const(t) and isinstance(cval(t), str)]
        if len(names) != len(e.target.a[2]) or not names or e.loops or e.guard is not TRUE or any(k is None for k, _ in e.target.a[3]):
            return None
        for n in names:
            out[n] = ({k: v for k, v in e.target.a[3] if k not in NEUTRAL}, e.where)
    return out


def spelled(t):
    """A keyword's value as a comparable Python value, or None when it is not one this rule reads."""
    if is_const(t):
        return ("value", cval(t))
    if t.op == "fnref":
        return ("callable", t.a[0])
    if t.op == "g":
        return ("callable", t.a[0].removeprefix("builtins."))
    return None


DEFAULTS = {"type": ("callable", "str"), "default": ("value", None), "action": ("value", "store")}


def options(c):
    """Every documented option exists, with its documented meaning and default."""
    for qual, table in OPTIONS.items():
        f = c.func(qual)
        where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
        s = c.summary(qual, opaque={RUN})
        got = option_table(s)
        for name, want in table.items():
            oid, rule = f"P27.{qual.removeprefix('kmcpy.')}:option {name}", "the option parses to the documented value and default"
            if got is None:
                c.unknown(oid, rule, where, "the options are not registered by plain add_argument calls")
                continue
            if name not in got and len(set(got) & set(table)) * 2 < len(table):
                c.unknown(oid, rule, where, "the options are registered somewhere else")
                continue
            if name not in got:
                c.bad(oid, rule, where, f"option {name} is not registered")
                continue
            kw, at = got[name]
            if kw.get("action") is not None and spelled(kw["action"]) is None:
                c.unknown(oid, rule, at, "the action is computed")
                continue
            worst = None
            for k in sorted(set(DEFAULTS) | set(kw)):
                w = DEFAULTS.get(k)
                if k in want:
                    w = ("callable", want[k]) if k == "type" else ("value", want[k])
                if k == "dest":
                    w = ("value", name.lstrip("-"))
                if k == "default" and want.get("action") == "store_true" and k in kw:
                    w = ("value", False)
                g = spelled(kw[k]) if k in kw else w if k == "dest" else DEFAULTS.get(k)
                if k not in DEFAULTS and k != "dest":
                    worst = worst or ("UNKNOWN", f"{name}: keyword {k}")
                elif g is None or (k == "type" and g != w and not (g[0] == "callable" and {g[1], w[1]} <= PLAIN)):
                    worst = worst or ("UNKNOWN", f"{name}: {k} is computed by {show(kw[k], 4)}")
                elif g != w:
                    worst = ("NE", f"{name}: {k} is {g[1]!r} where {w[1]!r} is documented")
                    break
            if worst is None:
                c.ok(oid, rule, at)
            elif worst[0] == "NE":
                c.bad(oid, rule, at, worst[1])
            else:
                c.unknown(oid, rule, at, worst[1])
    s = c.summary(MAIN, opaque={RUN})
    f = c.func(MAIN)
    where = f"{f.module.path}:{f.node.lineno} ({f.qual})"
    calls = [e for e in s.effects if e.kind == "call" and callee_name(e.target) == RUN]
    oid, rule = "P27.cli.run_kmc.main:run", "the parsed options are what is run, once"
    parsed = [t for e in calls for t in (list(e.target.a[1]) + [v for _, v in e.target.a[2]]) if t.op == "mcall" and t.a[1] == "parse_args"]
    if len(calls) == 1 and len(parsed) == 1 and calls[0].guard is TRUE and not calls[0].loops:
        c.ok(oid, rule, where)
    elif not calls and not any(callee_name(e.target).startswith(("kmcpy.", "apply")) for e in s.effects if e.kind == "call"):
        c.bad(oid, rule, where, "the parsed options are never run")
    else:
        c.unknown(oid, rule, where, "run_kmc is not called directly with the parsed options")


PLAIN = {"str", "float", "int", "bool"}
OBLIGATIONS = [parsing, running, template, options]
