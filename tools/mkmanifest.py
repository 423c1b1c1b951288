#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import checks
NOTES = checks.NOTES
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS and i in NOTES:
        t, n = NOTES[i]
        cs.append({'property': i, 'quick_cmd': 'python3 tools/run.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/run.py %s --tier thorough' % i, 'technique': t, 'level': 'exploration', 'level_note': n})
    else: na.append({'property': i, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'ECOS_VERIF_HOOKS', 'enable': 'tools/run.py compiles /repo/src with -DECOS_VERIF_HOOKS and links harness/main.cc, which defines ecos_verif_iterate', 'source_commits': ['7d4d850']},
     'checks': cs, 'not_applicable': na,
     'notes': 'Every check rebuilds from /repo (content-hashed objects under /verif/.build). tools/run.py <id> --replay <file> re-runs one violating case.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(cs), 'claimed', len(na), 'not')
