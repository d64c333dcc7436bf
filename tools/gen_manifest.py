#!/usr/bin/env python3
"""Regenerates MANIFEST.json from proptable.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from proptable import PROPS, NOT_APPLICABLE, NOTES
checks = []
for p in sorted(PROPS):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, memory layouts and "
                     "fault sequences of the real library, checked against an executable reference model",
        "level": "exploration",
        "level_note": NOTES.get(p, "Seeded search of whole-library executions; every violation is minimised and "
                                   "replayed exactly."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
    "notes": "No hooks in /repo: the seams are put in at compile and link time (see DESIGN.md). Genuine defects found "
             "are repaired by the fix: commits listed in known_findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
