#!/usr/bin/env python3
"""Decide one property of v8serialize from its source: python3 check.py C01 [--tier thorough]

Exit 0: held on everything analysed.  Exit 1: violated (see the VIOLATION line
and the replay file).  Exit 2: nothing could be decided.
"""

import hashlib
import json
import os
import pathlib
import sys
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.setrecursionlimit(20000)

from sa.checks import CHECKS  # noqa: E402
from sa.project import Project  # noqa: E402
from sa.report import Report  # noqa: E402


def known(pid):
    out = []
    f = HERE / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"finding: property={pid} "):
                site, _, text = line.split(" ", 2)[2].partition(" :: ")
                out.append((site.strip(), text.strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    seed = int(seed) if seed.lstrip("-").isdigit() else 1
    t0 = time.time()
    spec = CHECKS[pid]
    rep = Report(pid)
    decided = 0
    try:
        p = Project(os.environ.get("VERIF_REPO", "/repo"))
    except Exception as e:  # unreadable source: nothing can be decided
        print(f"UNDECIDED property={pid} the source could not be loaded: {e}")
        p = None
    for rule in spec.rules + (spec.deep if tier == "thorough" else []):
        if p is None:
            break
        try:
            rule(p, rep)
            decided += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided.append(f"{rule.__name__}: {type(e).__name__}: {e} ({pathlib.Path(tb.filename).name}:{tb.lineno})")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    new, listed = [], []
    kn = known(pid)
    for key, site, msg in rep.violations:
        hit = next((x for x in kn if x[0] in site and x[1] == msg), None)
        (listed if hit else new).append((key, site, msg))
    for key, site, msg in listed:
        print(f"KNOWN-FINDING: property={pid} {site}: {msg}")
    for u in rep.undecided:
        print(f"UNDECIDED property={pid} {u}"[:600])
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": spec.explanation,
            "rules": rep.rules,
            "obligations": sum(rep.counts.values()),
            "obligations_by_kind": rep.counts,
            "functions_analysed": len(rep.functions),
            "functions": sorted(rep.functions)[:400],
            "rule_sets_decided": decided,
            "undecided": rep.undecided,
            "known_findings_seen": len(listed),
        },
        "assumptions": spec.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(new),
    }
    d = HERE / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{pid}.json").write_text(json.dumps(ev, indent=1, sort_keys=True) + "\n")
    if new:
        body = {"property": pid, "violations": [{"rule": k, "site": s, "what": m} for k, s, m in new]}
        text = json.dumps(body, indent=1) + "\n"
        rp = d / f"replay-{pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
        rp.write_text(text)
        for k, s, m in new[:40]:
            print(f"  [{k}] {s}: {m}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not decided:
        return 2
    print(f"OK property={pid} tier={tier} rules={decided} " + " ".join(f"{k.replace(' ', '_')}={v}" for k, v in sorted(rep.counts.items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
