"""Shared by the dev tools: the stable tests on a scratch copy."""

import json
import os
import subprocess
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"


def tests(copy, tmp):
    x = tmp / "junit.xml"
    env = dict(os.environ, PYTHONPATH=f"{copy}/src:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               HYPOTHESIS_STORAGE_DIRECTORY=str(tmp / "hyp"))
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_hypothesis", "-n", "8", "--insta", "update-none", "-o",
                    f"cache_dir={tmp}/.pc", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={x}"],
                   cwd=copy, env=env, capture_output=True, text=True)
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok)
