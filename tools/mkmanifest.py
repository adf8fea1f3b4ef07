#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and the property list."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import props
P = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in props.CHECKS:
        tech, level, note = props.INFO[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif; no hooks were needed, /repo carries none", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
