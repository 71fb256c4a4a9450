#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] -- decide one property."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa import ctx as cx                                    # noqa: E402
from sa import parallel                                     # noqa: E402
from sa.program import AnalysisError, Program               # noqa: E402


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    verbose = '-v' in argv
    root = '/repo'
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    try:
        prog = Program(root)
        c = cx.Ctx(prop, tier, prog)
        mod = importlib.import_module('sa.rules.' + prop.lower())
        parallel.run(c, mod.check)
        bad, listed, known = c.finish()
    except AnalysisError as e:
        if verbose and 'c' in locals():
            for o in c.obs:
                print('%-9s %s %s %s %s' % (o.status, o.rule, o.key, o.where,
                                            o.msg))
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 3
    for o in c.obs:
        if verbose:
            print('%-9s %s %s %s %s' % (o.status, o.rule, o.key, o.where,
                                        o.msg))
    path = None
    if '--no-evidence' not in argv:
        path = cx.write_evidence(c, bad, listed)
    n = len(c.obs)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated '
          '(%d known); %d functions interpreted' % (
              prop, n, sum(o.status == 'ok' for o in c.obs),
              sum(o.status == 'undecided' for o in c.obs),
              sum(o.status == 'bad' for o in c.obs), len(listed),
              len(c.functions)))
    for k, d in listed:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, k, d))
    if bad:
        for o in bad[:12]:
            print('finding: %s [%s] at %s: %s' % (
                o.rule, o.key, o.where, o.msg))
        if len(bad) > 12:
            print('... and %d more' % (len(bad) - 12))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 4)
