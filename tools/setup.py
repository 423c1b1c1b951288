#!/usr/bin/env python3
"""Builds every variant the checks use, so that the first checks do not pay for it."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, checks
seen = set()
for k, c in checks.CHECKS.items():
    if k == 'DBG': continue
    for p in c['parts']:
        f = tuple(p.get('files', ['chk_%s.cc' % k]))
        if (p['variant'], f) in seen: continue
        seen.add((p['variant'], f))
        try: run.build(p['variant'], list(f))
        except run.BuildError as e: print('warning: %s %s does not build: %s' % (p['variant'], f, str(e)[:500]))
print('built', len(seen))
