#!/usr/bin/env python3
"""Writes MANIFEST.json.  A property is claimed when contracts with obligations for it are registered."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: sidecar pre/postconditions on the real functions, verification conditions generated by executing the real code on symbolic inputs (unbounded extents), discharged by z3; failed obligations replayed on the real code"
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    n = NOTES.get(i, {})
    if "na" in n or not n: na.append(dict(property=i, reason=n.get("na", "no contract for it has been written yet; not claimed")))
    else:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=n.get("technique", TECH), level=n.get("level", "proof"), level_note=n["note"], evidence_file="evidence/%s.json" % i))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
