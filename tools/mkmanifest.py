#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.manifest_text import LEVEL_NOTE, NOT_APPLICABLE  # noqa: E402
checks = []
for f in sorted(os.listdir(V + '/dst/props')):
    if f.startswith('c') and f.endswith('.py'):
        i = f[:-3].upper()
        checks.append({'property': i, 'quick_cmd': 'python3 -B check.py %s --tier quick' % i, 'thorough_cmd': 'python3 -B check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'deterministic simulation with fault injection: seeded search over simulated runs',
                       'level': 'exploration', 'level_note': LEVEL_NOTE[i]})
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'not yet built')} for i in ids if i not in [c['property'] for c in checks]]
m = {'version': 1, 'setup_cmd': 'python3 -B tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is outside (libc calls, sys.settrace, fork). Repairs are the fix: commits; see known_findings.txt and DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
