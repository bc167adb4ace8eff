#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NA, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults against a reference model",
                       "level": "exploration", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py plain tsan",
     "hooks": {"guard": "none", "enable": "No hook in /repo is needed: the simulator interposes the pthread, clock, heap and file calls of the library at link time.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes the simulator; known_findings.json lists recorded and repaired defects; check.py --replay FILE re-executes a violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
