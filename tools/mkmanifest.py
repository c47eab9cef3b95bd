#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOTES
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in PROPS:
        na.append({"property": p, "reason": "the check of this property is still being built"})
        continue
    c = PROPS[p]
    checks.append({"property": p, "quick_cmd": "./check.py %s --tier quick" % p,
                   "thorough_cmd": "./check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": c.get("technique", "TLA+ specification; TLC validates traces of the real library against it, event by event"),
                   "level": "model_checking",
                   "level_note": NOTES.get(p, "") or c.get("note", "Every recorded call is decided exactly by the specification; calls not recorded are not covered. Trusts TLC, the big-integer overrides and the trace encoding.")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC). No hooks in /repo are needed: the public API exposes all state."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
