#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
NA = {}
try: from props import NA
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = json.load(open(os.path.join(V, "tools", "hooks.json")))
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} --tier quick", "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
        "technique": P.get("technique", "contract-based deductive verification (Verus) of the function bodies extracted from /repo on each run"), "level": P["level"],
        "level_note": P.get("level_note", "Every obligation generated from the current source is discharged by Verus/Z3; functions the extraction cannot carry over are checked by a bounded falsifier and reported as bounded.")})
m = {"version": 1, "setup_cmd": "true", "hooks": hooks, "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in PROPS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
