"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA  # noqa
root = os.path.dirname(here)
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "mc", "checks", p["id"].lower() + ".py")) and p["id"] not in NA:
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                       "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
