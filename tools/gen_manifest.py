#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and checks.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    c = CHECKS.get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": c.get("technique", "model checking: exhaustive exploration of the real code"), "level": c.get("level", "model_checking"), "level_note": c.get("note", "bounded")})
    else: na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed: no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks execute /repo's real sources, rebuilt from the working tree, under an explicit-state exploration core (lib/mc.cpp) and, for concurrency, a controlled scheduler (lib/rt.cpp). No hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
