#!/usr/bin/env python3
"""try1.py CASE: one corpus case, verbose."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mut
for case in mut.cases():
    if case[0] == sys.argv[1]:
        d = tempfile.mkdtemp(prefix='mut')
        shutil.copytree('/repo/pgp', d + '/pgp')
        for f, old, new in case[3]:
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8').read()
            assert old in s
            open(p, 'w', encoding='utf-8').write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, os.path.join(mut.HERE, 'check.py'), case[1][0], '--root', d, '--no-evidence', '-v'], capture_output=True, text=True)
        for l in r.stdout.splitlines():
            if not l.startswith('ok'):
                print(l)
        print(r.stderr[-2000:])
        shutil.rmtree(d)
