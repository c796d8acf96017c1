#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "Quint specification; behaviours generated from it are replayed on the code with state comparison after every call (model-based conformance)"
out = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.PROPS:
        c = checks.PROPS[i]
        out["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                              "technique": c.get("technique", TECH), "level": c["level"], "level_note": c["note"]})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check has been built for it yet")})
out["notes"] = "No hooks in /repo. fix: commits in /repo are listed in known_findings.txt."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks;", len(out["not_applicable"]), "not claimed")
