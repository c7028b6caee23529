#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "lib", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "lib", "checks", i.lower() + ".py")) and i in NOTES and "reason" not in NOTES[i]:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": NOTES[i]["technique"], "level": "model_checking",
                       "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, TLC as model checker, scenario generator and trace validator; the code is run from /repo's working tree under cocotb/Icarus. No hooks in /repo: everything is observed at public extension points, so hooks is omitted."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
