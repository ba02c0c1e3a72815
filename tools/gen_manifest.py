#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OAUTH = ["C%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 26, 29)]
TECH = {}
for p in OAUTH:
    TECH[p] = ("TLA+ monitor OAuthMonitor checked by TLC on the design model OAuth.tla; TLC-generated cases, schedules and histories "
               "replayed into psion, recorded traces validated by TLC (OAuthTrace.tla)")
NOTE = {p: "Design model checked exhaustively within its bounds. The implementation is checked on every abstract case with up to two "
           "simultaneous deviations, on generated schedules/histories and on faults; each recorded trace must be a behaviour of the "
           "specification. Trusts TLC, the recording adapter and the clock shim; values outside the generated classes are not covered."
        for p in OAUTH}
EXTRA = os.path.join(HERE, "tools", "manifest_extra.json")
if os.path.exists(EXTRA):
    for p, d in json.load(open(EXTRA)).items():
        TECH[p], NOTE[p] = d["technique"], d["note"]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]} for p in ids if p in TECH],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in TECH],
     "notes": "TLA+ specification in spec/, drivers in harness/, see DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
