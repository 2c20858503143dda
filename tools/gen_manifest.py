#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks the harness has and tools/claims.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
claims = json.load(open(f"{here}/claims.json"))
m = {
    "version": 1,
    "setup_cmd": "./run_check.sh --build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the public interface suffices. All checks are one Rust program (harness/), built against /repo's working tree by run_check.sh.",
}
for p in props:
    c = claims.get(p["id"])
    if c and "technique" in c:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": f"./run_check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run_check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c["technique"], "level": c["level"], "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("reason", "check not built yet")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
