#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl (run by hand; output committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V+'/properties.jsonl')]
checks, na = [], []
for p in props:
    c = config.CHECKS.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': config.NOT_APPLICABLE.get(p['id'], 'check under construction')}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 lib/check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 lib/check.py %s' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': c.get('technique', 'runtime monitoring under ASan+UBSan with a reference-model oracle'),
                   'level': c.get('level', 'exploration'), 'level_note': c.get('note', config.NOTE)})
m = {'version': 1, 'setup_cmd': 'bash lib/setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the monitors observe the public API, system calls and sanitizer reports', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles /repo\'s working tree itself (clang 18, ASan+UBSan or TSan) into .build/ (content-hashed cache) and runs seeded workloads bounded by case counts.'}
json.dump(m, open(V+'/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
