"""Thorough tier: re-decide the property on in-memory edits of the functions it analysed."""
from __future__ import annotations

import ast
import multiprocessing as mp
import os
import random
import time

from .mutate import mutants


def _one(job):
    pid, root, label, rel, text = job
    from check import run_property
    try:
        _, c = run_property(pid, root, "quick", overlay={rel: ast.parse(text)})
        v = [o.oid for o in c.obs if o.verdict == "NE"]
        return label, ("reported" if v else "quiet")
    except Exception as e:
        return label, "error"


def _big(job):
    import sys
    import threading
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(_one(job)))
    t.start()
    t.join()
    return out[0] if out else (job[2], "error")


def sensitivity(pid, root, checker, run_property, limit=400, seconds=420):
    jobs = [(pid, root, label, rel, text) for label, rel, text in mutants(checker.program, checker.analysed, root)]
    total = len(jobs)
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    rng.shuffle(jobs)
    jobs = jobs[:limit]
    t0, res = time.time(), []
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for r in pool.imap_unordered(_big, jobs, chunksize=2):
            res.append(r)
            if time.time() - t0 > seconds:
                pool.terminate()
                break
    quiet = sorted(lbl for lbl, v in res if v == "quiet")
    return {
        "explanation": "edits of the analysed functions (comparison, arithmetic, constant, branch, argument and statement edits), "
                       "re-decided in memory; a quiet edit either keeps this property or is outside what it decides",
        "edits_available": total, "edits_tried": len(res),
        "reported": sum(v == "reported" for _, v in res), "quiet": len(quiet),
        "errors": sum(v == "error" for _, v in res), "quiet_samples": quiet[:60],
    }
