#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, COMMITS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": [], "not_applicable": [{"property": p['id'], "reason": p['reason']} for p in NA],
     "notes": "One Go program (/verif/checker, go/packages + go/ssa) decides every property on /repo's current source; no hooks in /repo."}
for p in PROPS:
    m["checks"].append({"property": p['id'], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": p['technique'], "level": "other", "level_note": p['level_note']})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
