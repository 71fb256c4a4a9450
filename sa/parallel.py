"""Run the guarded cases of one check in several processes.

Every process walks the whole list of cases; each case is taken by the first
process to reach it (creating a directory is atomic).  What a check records
outside its guarded cases is recorded by the first process only.
"""
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback

from .program import AnalysisError

WORKERS = int(os.environ.get('SA_WORKERS', '0')) or min(8, os.cpu_count() or 1)


def run(c, check):
    if WORKERS < 2:
        return check(c)
    top = tempfile.mkdtemp(prefix='sa-cases-')
    try:
        _run(c, check, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _claim(top):
    def claim(i):
        try:
            os.mkdir(os.path.join(top, str(i)))
            return True
        except FileExistsError:
            return False
    return claim


def _worker(c, check, idx, top, out):
    c.claim = _claim(top)
    c.primary = idx == 0
    err = None
    try:
        check(c)
    except AnalysisError as e:
        err = str(e)
    except BaseException as e:
        err = 'engine: %s: %s\n%s' % (type(e).__name__, e,
                                      traceback.format_exc()[-1500:])
    c.settle()
    for o in c.obs:
        o.msg = str(o.msg)
    with open(out + '.tmp', 'wb') as fh:
        pickle.dump((err, c.obs, c.counts, sorted(c.functions), c.rules,
                     c.minimum, c.assumptions), fh)
    os.rename(out + '.tmp', out)


def _run(c, check, top):
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for idx in range(WORKERS):
        out = os.path.join(top, 'out%d' % idx)
        pid = os.fork()
        if pid == 0:
            try:
                _worker(c, check, idx, top, out)
            finally:
                sys.stdout.flush()
                os._exit(0)
        kids.append((pid, out))
    for pid, out in kids:
        os.waitpid(pid, 0)
    obs, lost = [], 0
    errs = []
    for idx, (pid, out) in enumerate(kids):
        if not os.path.exists(out):
            lost += 1
            continue
        with open(out, 'rb') as fh:
            err, got, counts, functions, rules, minimum, ass = pickle.load(fh)
        if err:
            errs.append(err)
        obs += [(o.case, n, o) for n, o in enumerate(got)]
        for k, v in counts.items():
            c.count(k, v)
        c.functions |= set(functions)
        if idx == 0 or not c.rules:
            c.rules, c.minimum = rules, minimum
            c.assumptions = ass
    c.obs = [o for _, _, o in sorted(obs, key=lambda t: t[:2])]
    if errs:
        raise AnalysisError(errs[0])
    if lost == len(kids):
        raise AnalysisError('every analysis process ended early')
    if lost:
        c.count('analysis processes that ended early', lost)
