#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=p.get("technique", props.TECHNIQUE), level=p["level"], level_note=p.get("note", props.NOTE)))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd="true",
               hooks=dict(guard="verif", enable="go build -tags verif (harness module, replace => /repo)", source_commits=["9dc18ce"]),
               checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
