#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from props import PROPS
NOTE = {}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    s = PROPS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": s.get("technique", "runtime monitoring: independent oracle over randomized workloads on the real code"),
                   "level": "exploration",
                   "level_note": s.get("note", "held on the executions listed in the evidence; seeded random workloads %s observed by oracles that share no code with TQMesh" %
                                       ", ".join(sorted({j["bin"] + "/" + j["profile"] for j in s["jobs"]})))})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: all state is observable through the public API. Every check compiles its monitored binaries from /repo's working tree in a scratch directory that it removes."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
