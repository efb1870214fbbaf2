#!/usr/bin/env python3
"""Show, for in-memory edits a check does not report, whether it found them equal (EQ) or could not decide (UNKNOWN).

usage: surv.py PROPERTY [function substring] [width]
"""
import ast
import multiprocessing as mp
import os
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def one(job):
    pid, label, rel, text = job
    from check import run_property
    _, c = run_property(pid, os.environ.get("KROOT", "/repo"), "quick", overlay={rel: ast.parse(text)})
    if any(o.verdict == "NE" for o in c.obs):
        return label, "NE", ""
    u = [o for o in c.obs if o.verdict == "UNKNOWN"]
    return label, "UNKNOWN" if u else "EQ", "; ".join(f"{o.oid}: {o.why}" for o in u)


def big(job):
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(one(job)))
    t.start()
    t.join()
    return out[0] if out else (job[1], "ERROR", "")


def base(pid, out):
    from check import run_property
    out.append(run_property(pid, os.environ.get("KROOT", "/repo"), "quick")[1])


def main():
    pid = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    width = int(sys.argv[3]) if len(sys.argv) > 3 else 160
    sys.setrecursionlimit(100000)
    threading.stack_size(256 * 1024 * 1024)
    out = []
    t = threading.Thread(target=base, args=(pid, out))
    t.start()
    t.join()
    c = out[0]
    from kstat.mutate import mutants
    jobs = [(pid, l, r, x) for l, r, x in mutants(c.program, c.analysed, os.environ.get("KROOT", "/repo")) if pat in l]
    n = {}
    with mp.Pool(8) as pool:
        for label, v, why in pool.imap(big, jobs, chunksize=2):
            n[v] = n.get(v, 0) + 1
            if v != "NE":
                print(v, label.split("kmcpy.", 1)[-1], "|", why[:width])
    print(n)


if __name__ == "__main__":
    main()
