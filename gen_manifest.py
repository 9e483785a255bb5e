#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tool/info.json."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
info = json.load(open(d + '/tool/info.json'))
na = json.load(open(d + '/tool/na.json'))
props = [json.loads(l) for l in open(d + '/properties.jsonl') if l.strip()]
checks, nap = [], []
for p in props:
    i = p['id']
    if i in info:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": info[i]["technique"], "level": "other", "level_note": info[i]["note"]})
    else:
        nap.append({"property": i, "reason": na.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": nap}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
open(d + '/MANIFEST.json', 'a').write('\n')
