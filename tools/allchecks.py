#!/usr/bin/env python3
"""Every check in one process (dev tool); VERIF_REPO names the tree."""

import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)
from sa.checks import CHECKS  # noqa: E402
from sa.project import Project  # noqa: E402
from sa.report import Report  # noqa: E402

p = Project(os.environ.get("VERIF_REPO", "/repo"))
only = sys.argv[1:] or list(CHECKS)
for pid in only:
    rep = Report(pid)
    kn = [x.split(" :: ", 1)[1].strip() for x in (HERE / "known_findings.txt").read_text().splitlines()
          if x.startswith(f"finding: property={pid} ")]
    for rule in CHECKS[pid].rules:
        try:
            rule(p, rep)
        except Exception as e:
            rep.undecided.append(f"{rule.__name__}: {type(e).__name__}: {e}")
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
    for k, s, m in rep.violations:
        if m not in kn:
            print(f"VIOL {pid} [{k}] {s}: {m}")
    for u in rep.undecided:
        print(f"UNDEC {pid} {u}")
