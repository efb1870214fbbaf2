#!/usr/bin/env python3
"""Rewrite the per-property and planted-change sections of DESIGN.md (run by hand after editing props/ or seeded/)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
DOC = {
    "P01.draws": "every draw of the step uses that generator, in a fixed order and number",
    "P02.selection": "the index drawn is the first whose cumulative rate exceeds a uniform draw times the total; the waiting time is -log(u)/total of a second draw",
    "P05.swap": "the transition of an event as a function of the occupation, and its involution",
    "P05.construct": "what a new state accepts, and that it owns its list",
    "P06.start": "counters, displacements and ion positions start from the state's own occupied sites",
    "P06.hop": "the ion that leaves a site carries its displacement and hop count to the other one",
    "P06.direction": "the hop vector is the minimum image from the occupied to the empty site",
    "P06.writers": "no other code writes the bookkeeping arrays",
    "P07.schedule": "number and order of equilibration and production steps; production starts with fresh records",
    "P09.barrier": "the rate law of local barrier models and its units",
    "P11.formulas": "each metric as a closed formula of displacement, counter, time, dimension, charge, volume and temperature",
    "P11.latest": "the last sample is the one reported",
    "P11.units": "each column's unit label matches the constants used",
    "P12.due": "when a schedule is due, as a function of step, clock and the last sample",
    "P12.valid": "which intervals are accepted",
    "P12.defaults": "what applies when no interval is given",
    "P13.records": "what a record holds and which ones are dropped at the limit",
    "P13.policy": "which failures propagate and what a handled one leaves behind",
    "P13.retrieval": "what callers get back",
    "P14.refused": "which requests are refused, with nothing changed",
    "P14.specs": "a request keeps every option it was given",
    "P14.plan": "adding, replacing, enabling and disabling on the plan",
    "P14.tracker": "the same on the tracker of a running simulation",
    "P14.configured": "requests written in the configuration become the same specifications",
    "P15.payload": "the content of each file, element by element",
    "P16.schedule": "sampling intervals and callback entries",
    "P16.system": "validation of the system part",
    "P16.runtime": "validation of the runtime part",
    "P17.records": "to and from a dictionary, field by field; nothing handed out is shared",
    "P17.loading": "which section of which file is read",
    "P17.saving": "what is written, and which parts of an existing file are kept",
    "P17.changes": "replacing fields gives a new configuration with exactly those fields changed",
    "P18.event": "event fields round trip", "P18.state": "state fields round trip",
    "P18.library": "events, order, dependencies and index metadata round trip",
    "P20.maps": "translations between full and active indices are mutually inverse and refuse other lengths",
    "P22.canonical": "canonical site order of an event", "P22.selectors": "which sites a selector names",
    "P22.matching": "when each kind of condition holds", "P22.parsing": "how a rule text is read",
    "P22.rule": "a rule matches when all of its conditions do",
    "P23.value": "the value is the coefficients' dot product plus the constant",
    "P23.build": "orbits and clusters cover each site subset within the cutoffs once",
}


def main():
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    out = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        na = {x["property"]: x["reason"] for x in man["not_applicable"]}
        out.append(f"### {p['id']} {p['title']}\n")
        if p["id"] in na:
            out.append(f"Not applicable: {na[p['id']]}\n")
            continue
        tech = next(x["technique"] for x in man["checks"] if x["property"] == p["id"])
        out.append(f"Decided by {tech}. Obligations:\n")
        mod = importlib.import_module("props." + p["id"].lower())
        for o in mod.OBLIGATIONS:
            d = DOC.get(f"{p['id']}.{o.__name__}") or (o.__doc__ or "").split("\n")[0].rstrip(".")
            out.append(f"- `{o.__name__}`: {d}.")
        out.append(f"\nQuantified over {p['quantifier']['text']}. {p['why_tests_cant']}\n")
    body = "\n".join(out)
    rows = ["| change | property | what it breaks | reported by |", "|---|---|---|---|"]
    caught = {}
    log = os.path.join(HERE, "tools", "caught.json")
    if os.path.exists(log):
        caught = json.load(open(log))
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        sid = os.path.basename(os.path.dirname(m))
        rows.append(f"| {sid} | {d['property']} | {d['what_it_breaks']} | {', '.join(caught.get(sid, ['-']))} |")
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    fixed = "\n".join("- " + x[len("fixed: "):] for x in known["fixed"])
    for tag, text in (("properties", body), ("changes", "\n".join(rows)), ("fixed", fixed)):
        a, b = f"<!-- {tag} -->\n", f"<!-- /{tag} -->"
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + text.rstrip() + "\n" + s[j:]
    open(path, "w").write(s)


main()
