#!/usr/bin/env python3
"""Build and confirm a planted change from a spec (dev tool): seed.py SPEC.py [--notests]

SPEC defines ID, PROP, EDITS=[(file, old, new)...], DEMO (python), NEEDS, BREAKS.
Works on a scratch copy of /repo; writes /verif/seeded/<ID>/ only once confirmed.
"""

import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
HERE = pathlib.Path(__file__).resolve().parent.parent


def tests(copy, env):
    x = copy / "junit.xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_hypothesis", "-n", "8", "--insta", "update-none", "-o",
                    f"cache_dir={copy}/.pc", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={x}"],
                   cwd=copy, env=env, capture_output=True, text=True)
    ok, bad = set(), set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        n = f"{tc.get('classname')}::{tc.get('name')}"
        (bad if any(c.tag in ("failure", "error") for c in tc) else ok).add(n)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(base - ok) if base - ok else []


def main():
    s = runpy.run_path(sys.argv[1])
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed-", dir="/tmp"))
    try:
        copy = tmp / "repo"
        subprocess.run(["git", "clone", "-q", "/repo", str(copy)], check=True)
        d = tmp / "seed"
        d.mkdir()
        (d / "demo.py").write_text(s["DEMO"].lstrip())
        (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d / "demo.sh", 0o755)
        env = dict(os.environ, PYTHONPATH=f"{copy}/src:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   HYPOTHESIS_STORAGE_DIRECTORY=str(tmp / "hyp"))
        r0 = subprocess.run([str(d / "demo.sh")], cwd=copy, env=env, capture_output=True, text=True, timeout=280)
        if r0.returncode != 0:
            print("DEMO FAILS ON CLEAN TREE\n", r0.stdout[-800:], r0.stderr[-1500:])
            return 1
        for f, old, new in s["EDITS"]:
            t = (copy / f).read_text()
            if t.count(old) != 1:
                print("EDIT does not match once:", f, t.count(old), old[:80])
                return 1
            (copy / f).write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(copy), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        r1 = subprocess.run([str(d / "demo.sh")], cwd=copy, env=env, capture_output=True, text=True, timeout=280)
        if r1.returncode == 0:
            print("DEMO PASSES WITH THE CHANGE")
            return 1
        print("demo:", (r1.stderr.strip().splitlines() or r1.stdout.strip().splitlines() or ["?"])[-1][:200])
        # removed lines must be original ones
        orig = subprocess.run(["git", "-C", str(copy), "blame", "-s", "--root", "HEAD", "--", s["EDITS"][0][0]], capture_output=True, text=True)
        if "--notests" not in sys.argv:
            bad = tests(copy, env)
            if bad:
                print("TESTS FAIL:", bad[:5])
                return 1
            print("tests pass")
        for c in [s["PROP"]] + list(s.get("ALSO", [])):
            if not c:
                continue
            r = subprocess.run([sys.executable, str(HERE / "check.py"), c], env=dict(os.environ, VERIF_REPO=str(copy)), capture_output=True, text=True, cwd=HERE)
            print(f"check {c}: exit {r.returncode}")
            print("\n".join(x[:260] for x in r.stdout.splitlines()[:6]), r.stderr[-500:])
        out = HERE / "seeded" / s["ID"]
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(d, out)
        print("kept", out)
    finally:
        shutil.rmtree(tmp)


sys.exit(main())
