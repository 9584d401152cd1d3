"""Writes MANIFEST.json from the plan."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "sh tools/setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "technique": plan.PLAN[p]["technique"],
        "level": "exploration",
        "level_note": plan.PLAN[p]["note"],
    } for p in ids if p in plan.PLAN],
    "not_applicable": [{"property": p, "reason": "no check yet"} for p in ids if p not in plan.PLAN],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
