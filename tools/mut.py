#!/usr/bin/env python3
"""Runs the checks over small source variants (bugs must fire, refactorings
must stay quiet).  mut.py [-p PROP] [-k name-substring]

Corpus files: tools/corpus/*.py, each defining CASES = [(name, props,
'bug'|'same', [(file, old, new), ...])].
"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cases():
    for f in sorted(glob.glob(os.path.join(HERE, 'tools/corpus/*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for c in ns['CASES']:
            yield c


def run(case, only):
    name, props, kind, edits = case
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/pgp', d + '/pgp',
                        ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) < 1:
                return name, 'STALE', f + ': ' + old[:50], kind
            s = s.replace(old, new, 1)
            open(p, 'w', encoding='utf-8').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return name, 'SYNTAX', str(e), kind
        out = []
        for pr in props:
            if only and pr not in only:
                continue
            r = subprocess.run(
                [sys.executable, os.path.join(HERE, 'check.py'), pr,
                 '--root', d, '--no-evidence'], stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, timeout=1200)
            fl = [l for l in r.stdout.splitlines() if
                  l.startswith(('finding', 'ANALYSIS'))]
            und = [l for l in r.stdout.splitlines() if ' undecided' in l]
            if r.returncode not in (0, 1):
                fl.append(r.stdout[-300:])
            out.append((pr, r.returncode, (fl or und or [''])[0][:260]))
        return name, 'RUN', out, kind
    finally:
        shutil.rmtree(d)


def main():
    only = set()
    sub = None
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == '-p':
            only.add(a.pop(0))
        elif x == '-k':
            sub = a.pop(0)
    cs = [c for c in cases() if (not sub or sub in c[0]) and
          (not only or only & set(c[1]))]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, st, out, kind in ex.map(lambda c: run(c, only), cs):
            if st != 'RUN':
                print('%-7s %s %s' % (st, name, out))
                bad += 1
                continue
            for pr, rc, msg in out:
                good = rc == (1 if kind == 'bug' else 0)
                if not good:
                    bad += 1
                print('%-6s %s %-5s rc=%d %s %s' % (
                    'ok' if good else ('MISSED' if kind == 'bug' else
                                       'ALARM'), pr, kind, rc, name,
                    msg if kind == 'bug' or not good else ''))
    print('%d cases, %d not as expected' % (len(cs), bad))


if __name__ == '__main__':
    main()
