#!/usr/bin/env python3
"""Run every check on behaviour-preserving edits (refactors/*.py) applied to scratch copies; all must stay quiet.

refac.py [--tests] [NAME...]
"""

import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE / "tools"))
PY = "/opt/venv/bin/python"


def one(spec, run_tests, only):
    s = runpy.run_path(str(spec))
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="refac-", dir="/tmp"))
    out = []
    try:
        copy = tmp / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(copy)], check=True)
        for f, old, new in s["EDITS"]:
            t = (copy / f).read_text()
            if t.count(old) != 1:
                return spec.stem, [f"EDIT matches {t.count(old)} times: {old[:60]!r}"]
            (copy / f).write_text(t.replace(old, new))
        if run_tests:
            import importlib
            seed = importlib.import_module("seedlib")
            bad = seed.tests(copy, tmp)
            if bad:
                out.append(f"TESTS FAIL: {bad[:4]}")
        env = dict(os.environ, VERIF_REPO=str(copy), VERIF_EVIDENCE=str(tmp / "ev"))
        r = subprocess.run([sys.executable, str(HERE / "tools" / "allchecks.py"), *only], env=env, capture_output=True, text=True)
        for line in r.stdout.splitlines():
            if line.startswith(("VIOL", "UNDEC")):
                out.append(line[:300])
        if r.returncode:
            out.append(r.stderr[-500:])
    finally:
        shutil.rmtree(tmp)
    return spec.stem, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    specs = sorted((HERE / "refactors").glob("*.py"))
    if args:
        specs = [s for s in specs if any(a in s.stem for a in args)]
    t = "--tests" in sys.argv
    with ThreadPoolExecutor(2 if t else 8) as ex:
        for name, out in ex.map(lambda s: one(s, t, []), specs):
            print(("quiet  " if not out else "NOISY  ") + name)
            for o in out[:12]:
                print("      ", o)


main()
