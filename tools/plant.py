#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/plants/*.py and confirms each one:
changes only lines of the original repository, builds, passes the stable
tests, and its demonstration passes without and fails with the change.
plant.py [-k substr] [-f]"""
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = '6536f96'


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def blame(path, needle_lines):
    out = sh('git', '-C', REPO, 'blame', '-s', 'HEAD', '--', path).stdout
    return out.splitlines()


def main():
    sub = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    force = '-f' in sys.argv
    if sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip():
        raise SystemExit('/repo not clean')
    stable = None
    bad = 0
    for f in sorted(glob.glob(HERE + '/tools/plants/*.py')):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for p in ns['PLANTS']:
            if sub not in p['id']:
                continue
            d = os.path.join(HERE, 'seeded', p['id'])
            if os.path.exists(d + '/patch.diff') and not force:
                if sh('git', '-C', REPO, 'apply', '--check',
                      d + '/patch.diff').returncode == 0:
                    continue
            os.makedirs(d, exist_ok=True)
            try:
                for path, old, new in p['edits']:
                    fp = os.path.join(REPO, path)
                    s = open(fp, encoding='utf-8').read()
                    if s.count(old) != 1:
                        raise ValueError('%s: %d matches of %r' % (
                            path, s.count(old), old[:60]))
                    open(fp, 'w', encoding='utf-8').write(s.replace(old, new))
                diff = sh('git', '-C', REPO, 'diff', '-U3').stdout
                # removed lines must be original
                rm = [(x.split('\n')[0], l) for x in [''] for l in []]
                cur, warn, no = None, [], 0
                for l in diff.splitlines():
                    if l.startswith('--- a/'):
                        cur = l[6:]
                        bl = blame(cur, None)
                    elif l.startswith('@@'):
                        no = int(l.split()[1][1:].split(',')[0])
                    elif l.startswith('-'):
                        if not bl[no - 1].startswith('^'):
                            warn.append(l)
                        no += 1
                    elif l.startswith(' '):
                        no += 1
                open(d + '/patch.diff', 'w').write(diff)
                open(d + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
                open(d + '/demo.sh', 'w').write(
                    '#!/bin/bash\n'
                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
                    'PYTHONHASHSEED=0 LC_ALL=C.UTF-8\n'
                    'exec /opt/venv/bin/python -W ignore '
                    '"$(dirname "$0")/demo.py"\n')
                os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': p['property'], 'needs': p['needs'],
                           'what_it_breaks': p['breaks']},
                          open(d + '/meta.json', 'w'), indent=1)
                b = sh('bash', '/opt/vp/build.sh')
                t = sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
                res = json.load(open('/tmp/plant.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                failed = lost(base, res)
                w = sh('bash', d + '/demo.sh', cwd=REPO)
            finally:
                sh('git', '-C', REPO, 'checkout', '--', '.')
            o = sh('bash', d + '/demo.sh', cwd=REPO)
            ok = (b.returncode == 0 and not failed and w.returncode != 0 and
                  o.returncode == 0 and not warn)
            bad += not ok
            print(p['id'], 'OK' if ok else 'BAD build=%d failed=%s demo '
                  'with=%d without=%d non-original=%s' % (
                      b.returncode, failed[:3], w.returncode, o.returncode,
                      warn[:2]))
            print('   with:', w.stdout.strip().splitlines()[-1:] ,
                  '' if ok else o.stdout[-400:])
    sys.exit(bad)


def lost(base, res):
    def passed(x):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in x:
                v = x[k]
                if isinstance(v, dict):
                    return {n for n, s in v.items() if s in (
                        'pass', 'passed', True)}
                return set(v)
        raise SystemExit('keys: %s' % list(x))
    return sorted(passed(base) - passed(res))


if __name__ == '__main__':
    main()
