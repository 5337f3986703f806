#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims = json.load(open(os.path.join(root, "tools/claims.json")))
checks, na = [], []
for p in props:
    c = claims.get(p["id"])
    if c and c.get("claimed", True):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p["id"], "reason": (c or {}).get("reason", "the check for this property is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is property-based testing: generated scripts, messages, host answers and operation sequences run against the real compiler and runtime, decided by an explicit oracle. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
