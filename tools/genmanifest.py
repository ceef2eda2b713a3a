#!/usr/bin/env python3
# writes MANIFEST.json; CLAIMS maps property -> (technique, level, note)
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(base + '/properties.jsonl')]
from claims import CLAIMS, NOT
checks = [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
           "technique": CLAIMS[p][0], "level": CLAIMS[p][1], "level_note": CLAIMS[p][2]} for p in props if p in CLAIMS]
na = [{"property": p, "reason": NOT.get(p, "no check is registered yet; model checking applies, the harness is under construction")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks in /repo: every check builds /repo's working tree, where needed through a source-rewriting overlay made at check time (mc/cmd/vinst)", "source_commits": []},
     "notes": "See DESIGN.md. deps/ holds offline stand-ins for the modules /repo needs and this sandbox lacks."}
json.dump(m, open(base + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
