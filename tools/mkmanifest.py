#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks_table.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks_table import BASE, CHECKS, NA                    # noqa: E402

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < '
                  '(3, 8))"',
     'checks': [], 'not_applicable': [],
     'notes': 'All checks are static: they parse and interpret abstractly the '
              'source under /repo/pgp and never execute it. No hooks.'}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'static analysis: ' + t, 'level': 'other',
            'level_note': BASE + n})
    else:
        m['not_applicable'].append({
            'property': i, 'reason': NA.get(i, 'No check yet.')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
