#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a property is claimed when harness/<id> holds Go files; others go to not_applicable with a reason.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    d = os.path.join(here, "harness", p["id"].lower())
    if os.path.isdir(d) and any(f.endswith(".go") for f in os.listdir(d)):
        checks.append({"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
            "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
            "technique": "symbolic execution of the repository's go/ssa code with z3 deciding every branch and assertion over symbolic inputs; counterexamples replayed natively",
            "level": "model_checking", "level_note": LEVEL.get(p["id"], DEFAULT_NOTE)})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no harness yet")})
json.dump({"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
