#!/usr/bin/env python3
"""Runs each planted bug's own check on a patched copy of the repository.
seeded.py [-k substring] [-a: every claimed check]"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(d, props):
    t = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.copytree('/repo/pgp', t + '/pgp',
                        ignore=shutil.ignore_patterns('__pycache__'))
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory',
                            t, os.path.join(d, 'patch.diff')], cwd='/',
                           capture_output=True, text=True)
        if r.returncode:
            return os.path.basename(d), {'patch': r.stderr[:200]}
        out = {}
        for p in props:
            r = subprocess.run(
                [sys.executable, os.path.join(HERE, 'check.py'), p, '--root',
                 t, '--no-evidence'], capture_output=True, text=True)
            ls = [x for x in r.stdout.splitlines() if 'finding' in x]
            out[p] = '%d %s' % (r.returncode, (ls or r.stdout.splitlines()[
                -1:] or [''])[0][:160])
        return os.path.basename(d), out
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    allc = [c['property'] for c in json.load(open(os.path.join(
        HERE, 'MANIFEST.json')))['checks']]
    jobs = []
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/'))):
        d = d.rstrip('/')
        if k not in d:
            continue
        p = json.load(open(d + '/meta.json'))['property']
        jobs.append((d, allc if '-a' in sys.argv else [p]))
    with cf.ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(lambda j: run(*j), jobs):
            for p, r in out.items():
                print(name, p, r)
