#!/usr/bin/env python3
"""Writes DESIGN.md."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks_table import CHECKS, NA                          # noqa: E402


def text(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return None


def rules(p):
    f = os.path.join(HERE, 'sa/rules/%s.py' % p.lower())
    out = []
    for n in ast.walk(ast.parse(open(f).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'rule' and len(n.args) >= 2:
            a, b = text(n.args[0]), text(n.args[1])
            if a and b:
                out.append((n.lineno, a, b))
    return [(a, b) for _, a, b in sorted(out)]


out = [open(os.path.join(HERE, 'tools/design_head.md')).read()]
out.append('## Properties\n')
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    out.append('### %s %s\n' % (p, d['title']))
    if p in CHECKS:
        t, n = CHECKS[p]
        out.append('Method: %s.\n' % t)
        out.append('Bounds: %s\n' % n)
        r = rules(p)
        if r:
            out.append('Rules:')
            out += ['* *%s*: %s' % x for x in r]
            out.append('')
        for k in d:
            if k.startswith('why'):
                out.append('Beyond the tests: %s\n' % d[k])
    else:
        out.append('Not applicable: %s\n' % NA.get(p, 'no check yet'))
out.append('## Planted bugs\n')
out.append('Each is in `seeded/<id>/`, from `tools/plants/`. `tools/seeded.py`'
           ' runs the check of its property on a patched copy; `-a` runs all.'
           '\n')
out.append('| id | property | needs | caught by |\n|---|---|---|---|')
caught = {}
cf = os.path.join(HERE, 'tools/caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for m in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (
        i, d['property'], d['needs'].replace('|', '/'),
        caught.get(i, '?')))
out.append('')
n = {}
for f in sorted(glob.glob(HERE + '/tools/corpus/*.py')):
    ns = {}
    exec(compile(open(f).read(), f, 'exec'), ns)
    for c in ns['CASES']:
        for p in c[1]:
            n.setdefault(p, {'bug': 0, 'same': 0})[c[2]] += 1
out.append('## Corpus\n')
out.append('`tools/mut.py` runs checks over small variants of the source '
           '(`tools/corpus/`): bugs, which the check of the property is to '
           'report, and rewrites that keep the behaviour, on which it is to '
           'stay quiet. Variants per property (bugs / rewrites): ' +
           ', '.join('%s %d/%d' % (p, v['bug'], v['same'])
                     for p, v in sorted(n.items())) + '.\n')
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(out))
print(len(out))
