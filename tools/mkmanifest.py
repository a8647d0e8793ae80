#!/usr/bin/env python3
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
notes = json.load(open(os.path.join(here, "tools", "checks.json")))
checks = []; na = []
for p in props:
    i = p["id"]
    if i in notes["claimed"]:
        c = notes["claimed"][i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": notes["hooks"], "checks": checks, "not_applicable": na, "notes": notes["notes"]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
