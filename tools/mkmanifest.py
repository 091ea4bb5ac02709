#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, the checks and tools/not_applicable.json."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
na = json.load(open(V + "/tools/not_applicable.json"))
checks, nap = [], []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    if pid not in na and os.path.exists(V + "/checks/%s.py" % pid.lower()):
        m = importlib.import_module("checks." + pid.lower())
        c = {"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py " + pid,
             "evidence_file": "evidence/%s.json" % pid,
             "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"),
             "level_note": m.RULE + ("  Assumes: " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else "")}
        checks.append(c)
    else:
        nap.append({"property": pid, "reason": na.get(pid) or "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 sa/extract.py", "checks": checks, "not_applicable": nap,
           "notes": "Static analysis over rustc MIR of /repo's current tree; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in nap])
