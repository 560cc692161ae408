#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, the rules present and tools/claims.json (technique, level_note, not_applicable reasons)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(V, "tools/claims.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    c = claims.get(i, {})
    if os.path.exists(os.path.join(V, "rules", i.lower() + ".py")) and "not_applicable" not in c:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "value-flow analysis of THIR to closed-form summaries, compared with a closed-form specification"),
                           level="other", level_note=c.get("note", claims["default_note"])))
    else:
        na.append(dict(property=i, reason=c.get("not_applicable", "no static check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes=claims["notes"])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
