#!/usr/bin/env python3
# writes MANIFEST.json from the tables below
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = "contract-based deductive verification: weakest-precondition style conditions over Go SSA of /repo, discharged by z3/cvc5"
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, note, tech = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech or T, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
