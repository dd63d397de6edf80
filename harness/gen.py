#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from harness/catalog.json entries (catalog.py)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import PROPS, NOT_APPLICABLE

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {f[:-4] for f in os.listdir(V + "/harness/checks") if f.endswith(".cpp")}
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        e = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"]}}
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"python3 harness/check.py {p['id']}", "thorough_cmd": f"python3 harness/check.py {p['id']}",
           "technique": p.get("technique", "property-based testing: generated inputs against an independent oracle, with shrinking"),
           "level": "exploration", "level_note": p["note"]} for p in PROPS if p["id"] in have]
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": NOT_APPLICABLE}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks; without a check:", [p["id"] for p in PROPS if p["id"] not in have])
