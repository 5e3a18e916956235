#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
T = {}  # id -> (technique, note)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none: go build -overlay at check time", "enable": "run.py builds each harness with -overlay (instrumented copies and in-package harness files live outside /repo)", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                            "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
