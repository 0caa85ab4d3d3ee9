#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue in
tools/catalog.py (one source for both)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from catalog import PROPS, NA, NOTES

with open(os.path.join(ROOT, "properties.jsonl"), "w") as o:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["for"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")

m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": NOTES,
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(PROPS), "claimed", len(NA), "not applicable")
except ImportError:
    print("no jsonschema; run with python3-vt")
