#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.checks import CHECKS
from vlib.notes import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": CHECKS[i]["level"], "level_note": n})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 vlib/build.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the missing nanothread submodule is replaced by /verif/shim, which is where delays are injected and tasks are counted."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
