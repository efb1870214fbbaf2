#!/usr/bin/env python3
"""Decide one property of kMCpy by static analysis of /repo's current source.

usage: check.py <PROPERTY> [--tier quick|thorough] [--root DIR] [-v]
exit 0: every decided obligation holds; exit 1: VIOLATION lines; exit 2: nothing could be analysed.
"""
import argparse
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from kstat.harness import Checker  # noqa: E402
from kstat.limit import Clock, limited  # noqa: E402
from kstat.program import AnalysisError  # noqa: E402

TOTAL = 600  # seconds for the whole check (one obligation: Checker.EACH); what takes longer stays undecided


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)["findings"]


def run_property(pid, root, tier, overlay=None):
    mod = importlib.import_module("props." + pid.lower())
    c = Checker(pid, root, tier, overlay=overlay)
    clock = c.clock = Clock(TOTAL)
    for fn in mod.OBLIGATIONS:
        try:
            if not limited(clock.left(TOTAL), lambda: fn(c)):
                c.unknown(f"{pid}.{fn.__name__}", "engine", "", "time limit")
        except AnalysisError as e:
            c.unknown(f"{pid}.{fn.__name__}", "anchor", "", f"anchor not found: {e}")
        except RecursionError:
            c.unknown(f"{pid}.{fn.__name__}", "engine", "", "analysis depth exceeded")
        except Exception as e:  # an engine limit is never an alarm
            c.unknown(f"{pid}.{fn.__name__}", "engine", "", f"{type(e).__name__}: {e}")
            if os.environ.get("KSTAT_DEBUG"):
                traceback.print_exc()
    return mod, c


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    mod, c = run_property(pid, a.root, a.tier)
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    held = [o for o in c.obs if o.verdict == "EQ"]
    unknown = [o for o in c.obs if o.verdict == "UNKNOWN"]
    viol, kf = [], []
    for o in c.obs:
        if o.verdict == "NE":
            hit = next((k for k in known if k["obligation"] == o.oid), None)
            (kf if hit else viol).append(o)
    sens = None
    if a.tier == "thorough" and not viol:
        from kstat.sensitivity import sensitivity
        sens = sensitivity(pid, a.root, c, run_property)
    print(f"{pid}: {getattr(mod, 'TITLE', '')}")
    print(f"  analysed {len(c.analysed)} functions, {len(c.obs)} obligations: {len(held)} hold, "
          f"{len(viol)} violated, {len(kf)} known, {len(unknown)} undecided")
    if a.v:
        for o in c.obs:
            print(f"    [{o.verdict}] {o.oid} {o.where} {o.why}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    vlist = []
    for i, o in enumerate(viol):
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.{i}.json")
        with open(rp, "w") as fh:
            json.dump({"property": pid, "obligation": o.oid, "rule": o.rule, "where": o.where, "why": o.why,
                       "replay": f"python3 {HERE}/check.py {pid} -v"}, fh, indent=1)
        vlist.append({"obligation": o.oid, "where": o.where, "why": o.why, "replay": rp})
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static value-graph and effect analysis of the current source: each obligation compares what a "
                           "function computes, stores, rejects or calls (helpers inlined, loops summarised, guards normalised) "
                           "with the behaviour the property requires; no code of the package is executed",
            "functions_analysed": sorted(c.analysed), "n_functions": len(c.analysed),
            "obligation_list": [{"id": o.oid, "rule": o.rule, "where": o.where, "verdict": {"EQ": "holds", "NE": "violated",
                                                                                     "UNKNOWN": "undecided"}[o.verdict],
                             **({"why": o.why} if o.verdict != "EQ" else {})} for o in c.obs],
            "obligations": len(c.obs), "discharged": len(held), "n_undecided": len(unknown), "n_known": len(kf),
            "sites": c.notes,
        },
        "assumptions": ["NumPy, h5py, pymatgen and the Python runtime behave as documented",
                        "floating-point rounding, NaN ordering and numba compilation are outside the comparison"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vlist), "violation_list": vlist,
    }
    if sens is not None:
        ev["coverage"]["sensitivity"] = sens
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for o in kf:
        print(f"KNOWN-FINDING: property={pid} {o.oid} at {o.where}: {o.why}")
    for o, v in zip(viol, vlist):
        print(f"  violated: {o.oid} [{o.rule}] at {o.where}\n    {o.why}")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    if viol:
        return 1
    if not held:
        print("nothing decided: " + "; ".join(o.why for o in unknown)[:500])
        return 2
    return 0


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    res = []

    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except Exception:
            traceback.print_exc()
            res.append(2)

    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
