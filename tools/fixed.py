#!/usr/bin/env python3
# fixed.py PROPERTY COMMIT WHAT...: records a repaired defect in known-findings.json.
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(p))
prop, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d["findings"].append({"property": prop, "what": what, "status": "fixed: property=%s %s %s" % (prop, commit, what)})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x, ensure_ascii=False) for x in d["findings"]) + "\n]}\n")
