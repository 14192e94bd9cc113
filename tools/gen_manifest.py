#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import units
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
P = units.properties()
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "Every check compiles its programs against /repo/include on each run and explores real executions; see DESIGN.md. No hooks in /repo: all instrumentation is in the content types, visitors and allocators the harnesses pass to the library."}
for p in props:
    i = p["id"]
    if i in P:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": P[i].technique, "level": "model_checking", "level_note": P[i].note})
    else:
        m["not_applicable"].append({"property": i, "reason": units.NOT_CLAIMED.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
