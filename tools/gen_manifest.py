#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from jobs import PROPS
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in PROPS:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NOTES.get(i, ["", "check under construction"])[1]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check observes the allocator through its public interface, the process memory map and signals. "
              "Each check compiles /repo's src/*.c itself, in the build configurations listed for it in jobs.py."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
