#!/usr/bin/env python3
"""Development aid: validate planted changes in scratch copies. usage: tools/seed.py [--no-tests] [ID ...]"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    b = BASE
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def one(sid, tests):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-" + sid + "-", dir="/tmp")
    out = {"id": sid, "property": meta["property"]}
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        dd = os.path.join(w, "demo")
        shutil.copytree(d, dd)
        env = {"PYTHONPATH": r}
        out["demo_clean"] = run(["bash", os.path.join(dd, "demo.sh")], r, env).returncode
        p = run(["git", "apply", os.path.join(d, "patch.diff")], r)
        out["applies"] = p.returncode == 0
        if p.returncode:
            out["apply_error"] = p.stdout[:300]
            return out
        p = run(["bash", os.path.join(dd, "demo.sh")], r, env)
        out["demo_patched"] = p.returncode
        out["demo_out"] = p.stdout.strip().splitlines()[-1:] if p.stdout.strip() else []
        hits = []
        ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
        man = {c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
        for i in ids:
            if i in man:
                q = run([sys.executable, os.path.join(HERE, "check.py"), i, "--root", r], HERE)
                if "VIOLATION property=" + i in q.stdout:
                    hits.append(i)
                elif q.returncode != 0:
                    hits.append(i + "?")
        out["hits"] = hits
        if tests:
            x = os.path.join(w, "junit.xml")
            run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--color=no", "-p", "no:cacheprovider", "--timeout=300",
                 "--basetemp=" + os.path.join(w, "bt"), "--continue-on-collection-errors", "--junitxml=" + x, "tests"], r, env)
            import xml.etree.ElementTree as ET
            bad = []
            for tc in ET.parse(x).getroot().iter("testcase"):
                if any(ch.tag in ("failure", "error") for ch in tc):
                    bad.append(tc.get("classname", "") + "::" + tc.get("name", ""))
            out["failed_tests"] = bad[:6]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tests = "--no-tests" not in sys.argv
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with cf.ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda i: one(i, tests), ids):
            good = o.get("demo_clean") == 0 and o.get("applies") and o.get("demo_patched", 0) != 0
            caught = o["property"] in o.get("hits", [])
            print(("OK  " if good else "BAD ") + ("caught " if caught else "MISSED ") + json.dumps(o), flush=True)


main()
