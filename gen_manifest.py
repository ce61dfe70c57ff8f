#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, sys
sys.path.insert(0, "/verif")
from props import PROPS, META
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    c = dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
             technique=p.get("technique", META["technique"]), level=p.get("level", "model_checking"),
             level_note="Bounds: %s. Outside: %s. %s" % (p["bounds"], p.get("outside", "nothing stated"), p.get("note", META["note"])))
    checks.append(c)
m = dict(version=1, setup_cmd=META["setup"], checks=checks,
         not_applicable=[dict(property=i, reason=META["na"].get(i, "check not built yet")) for i in ids if i not in PROPS], notes=META["notes"])
if META.get("hooks"):
    m["hooks"] = META["hooks"]
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
