#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/checks.json and properties.jsonl (run by hand when they change)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    c = checks["properties"].get(p["id"])
    if c:
        out["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py check %s quick" % p["id"],
            "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c.get("technique", "property-based testing (seeded generators, shrinking), coverage-guided fuzzing in the thorough tier"),
            "level": "exploration",
            "level_note": c.get("note", "Generated-input search against an explicit oracle; finds violations, does not prove absence. Trusts the harness oracle and the sanitizers."),
        })
    else:
        out["not_applicable"].append({"property": p["id"], "reason": checks.get("na", {}).get(p["id"], "check not built yet")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
