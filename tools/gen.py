#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from spec import S
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(S):
        p = S[k]
        assert len(p["title"]) <= 80, k
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for k in sorted(S):
    if k in PROPS:
        q = PROPS[k]
        checks.append(dict(property=k, quick_cmd="python3 check.py %s" % k, thorough_cmd="python3 check.py %s --tier thorough" % k,
                           evidence_file="evidence/%s.json" % k, technique=q["technique"], level=q["level"],
                           level_note=q["note"]))
    else:
        na.append(dict(property=k, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
