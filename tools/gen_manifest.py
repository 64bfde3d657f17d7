#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from properties import LIST, NA
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in LIST:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
checks = []
for p in LIST:
    i = p['id']
    if i not in PROPS:
        assert i in NA, i
        continue
    c = PROPS[i]
    checks.append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                   'technique': c.get('technique', 'contracts on the real functions, discharged by Verus; bounded replay harness for inputs'),
                   'level': c['level'], 'level_note': c['level_note']})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'hooks': {'guard': '--cfg vimwiki_verif', 'enable': 'RUSTFLAGS="--cfg vimwiki_verif" (run.py builds tools/replay, which depends on /repo by path, this way)', 'source_commits': ['150aa9b']},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in PROPS],
     'notes': 'Each check rebuilds extractor, harness and MIR from the working tree, re-extracts the functions and runs Verus. Bounded runs are labelled as such in the evidence. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
