"""Obligations, findings, known findings and evidence of one property check."""
import json
import os
import time
import traceback

from . import equiv
from . import rint
from . import terms as tm
from .interp import Interp
from .program import AnalysisError, Budget, Missing, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Ob(object):
    def __init__(self, rule, key, status, msg, where):
        self.rule = rule
        self.key = key            # stable construct key
        self.status = status      # 'ok' | 'bad' | 'undecided'
        self.msg = msg
        self.where = where


class Ctx(object):
    def __init__(self, prop, tier, prog=None):
        self.prop = prop
        self.tier = tier
        self.prog = prog or Program()
        self.obs = []
        self.functions = set()
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.minimum = {}
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if tier == 'quick' else 3000)
        self.claim = None         # claim(i): is case i ours? (see parallel)
        self.primary = True       # does this process record shared cases?
        self.case = -1            # number of the outermost guarded case
        self.depth = 0

    # ------------------------------------------------------------ reporting
    def rule(self, name, text, minimum=1):
        """Declare a rule; it must have at least `minimum` instances."""
        self.rules[name] = text
        self.minimum[name] = minimum

    def ob(self, rule, key, ok, msg='', where=None):
        status = {True: 'ok', False: 'bad', None: 'undecided'}[ok]
        if self.depth or self.primary:
            o = Ob(rule, key, status, msg, where or '')
            o.case = self.case
            self.obs.append(o)
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def where(self, modname, node):
        m = self.prog.modules.get(modname)
        p = os.path.relpath(m.path, self.prog.root) if m else modname
        return '%s:%s' % (p, getattr(node, 'lineno', '?'))

    def exit_where(self, x):
        if x.fn is not None and x.node is not None:
            return self.where(x.fn.module, x.node) + ' (%s)' % x.fn.fid
        return ''

    def fwhere(self, f):
        return self.where(f.module, f.node) + ' (%s)' % f.fid

    # ------------------------------------------------------------ analysis
    def interp(self, **kw):
        ip = Interp(self.prog, **kw)
        ip.deadline = self.deadline + 60
        ip.maxrec = getattr(self, 'maxrec', 1)
        self._last = ip
        self._ips = getattr(self, '_ips', [])
        self._ips.append(ip)
        return ip

    def guard(self, rule, key, fn):
        """Run fn; an engine failure leaves the obligation undecided."""
        if not self.depth:
            self.case += 1
            if self.claim is not None and not self.claim(self.case):
                return None
        if time.time() > self.deadline:
            self.depth += 1
            try:
                return self.ob(rule, key, None, 'out of time')
            finally:
                self.depth -= 1
        self.depth += 1
        try:
            return fn()
        except Missing as e:
            self.ob(rule, key, None, 'not found: %s' % e)
        except AnalysisError:
            raise
        except Budget:
            self.ob(rule, key, None, 'analysis budget exceeded')
        except equiv.TooMany:
            self.ob(rule, key, None, 'case limit exceeded')
        except RecursionError:
            self.ob(rule, key, None, 'recursion limit')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.ob(rule, key, None, 'engine: %s: %s (%s:%s)' % (
                type(e).__name__, e, os.path.basename(tb.filename),
                tb.lineno))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            self.depth -= 1

    def same(self, rule, key, impl, spec, where='', facts=(), what='value'):
        """Value-graph equality obligation."""
        try:
            env = equiv.env_of(*facts)
            diffs, n = equiv.compare(impl, spec, env)
        except equiv.TooMany:
            return self.ob(rule, key, None, 'too many gate cases', where)
        self.count('gate cases compared', n)
        if not diffs:
            return self.ob(rule, key, True, '%d cases' % n, where)
        bad, und = [], []
        for d in diffs:
            for a, b in components(d.a, d.b):
                if unreadable(a) or unreadable(b) or foreign(a, b):
                    continue
                v = rint.distinguish(a, b, list(d.env.facts.items()))
                if v == 'differ':
                    d.a, d.b = a, b
                    bad.append(d)
                    break
            else:
                und.append(d)
        if bad:
            d = bad[0]
            return self.ob(rule, key, False, '%s: when %s it is %s, required '
                           '%s' % (what, d.when(), tm.show(d.a, 9),
                                   tm.show(d.b, 9)), where)
        d = und[0]
        return self.ob(rule, key, None, '%s undecided when %s: %s / %s' % (
            what, d.when(), tm.show(d.a, 9), tm.show(d.b, 9)), where)

    # ------------------------------------------------------------- verdict
    def settle(self):
        for ip in getattr(self, '_ips', []):
            self.functions |= set(ip.analysed)
            self.count('call sites interpreted', ip.callsites)
        self._ips = []

    def finish(self):
        self.settle()
        # what could not be told explains cases that were not reached
        failing = any(o.status in ('bad', 'undecided') for o in self.obs)
        for r, n in self.minimum.items():
            got = sum(1 for o in self.obs if o.rule == r)
            if got < n and not failing:
                raise AnalysisError(
                    'rule %s matched %d instances, at least %d expected' % (
                        r, got, n))
        known = load_known(self.prop)
        bad = [o for o in self.obs if o.status == 'bad']
        out, listed = [], []
        seen = set()
        for o in bad:
            k = '%s:%s' % (o.rule, o.key)
            if k in known:
                listed.append((k, known[k]))
                continue
            if k in seen:
                continue
            seen.add(k)
            out.append(o)
        return out, sorted(set(listed)), known


def components(a, b):
    """The differing members of two tuples, else the two terms."""
    if a is b:
        return []
    if a.op == b.op == 'tuple' and len(a.args) == len(b.args):
        return [p for x, y in zip(a.args, b.args) for p in components(x, y)]
    return [(a, b)]


def unreadable(t):
    """Graphs containing widened or unknown values decide nothing."""
    for s in tm.subterms(t):
        if s.op in rint.WIDENED:
            return True
        if s.op == 'attr' and s.args[0].op in ('obj', 'class', 'mod'):
            return True     # the harness or the package names it otherwise
    return False


UNDERSTOOD = ('Crypto.', 'pgp.', 'zlib.', 'bz2.', 'warnings.', 'print',
              'time.', 'datetime.', 'os.', 'random.', 'secrets.')


def heads(t):
    out = set()
    for s in tm.subterms(t):
        if s.op in ('call', 'mcall', 'xcall'):
            n = s.args[0] if s.op == 'call' else s.args[1]
            if s.op == 'xcall':
                if len(s.args[1]):
                    out.add(('xlog', len(s.args[1])))
                continue
            out.add((s.op, n if isinstance(n, str) else str(n)))
        elif s.op == 'ext':
            out.add(('ext', str(s.args[0])))
    return out


def foreign(a, b):
    """Does `a` use an operation the analysis has no model of and the
    reference `b` does not use?"""
    return any(not (n in rint.PURE_METHODS if k == 'mcall' else
                    str(n).startswith(UNDERSTOOD) or n == 'range' or
                    n in rint.PURE_CALLS)
               for k, n in heads(a) - heads(b))


def load_known(prop):
    """{'rule:key': description} of the property's recorded findings."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith('known: '):
                continue
            head, _, desc = line[7:].partition(' -- ')
            name, _, key = head.partition(' key=')
            if name == 'property=' + prop:
                out[key] = desc
    return out


def write_evidence(ctx, bad, listed, path=None):
    st = {'ok': 0, 'bad': 0, 'undecided': 0}
    per = {}
    for o in ctx.obs:
        st[o.status] += 1
        r = per.setdefault(o.rule, {'rule': ctx.rules.get(o.rule, ''),
                                    'instances': 0, 'discharged': 0,
                                    'violated': 0, 'undecided': 0})
        r['instances'] += 1
        r[{'ok': 'discharged', 'bad': 'violated',
           'undecided': 'undecided'}[o.status]] += 1
    shown = [o for o in ctx.obs if o.status != 'ok']
    good = [o for o in ctx.obs if o.status == 'ok']
    shown += good[::max(1, len(good) // 400)]
    cov = {
        'explanation': (
            'Static analysis of the source under /repo/pgp: %d modules '
            'parsed, %d functions interpreted abstractly for this property; '
            'each obligation below is one rule applied to one construct.' % (
                len(ctx.prog.modules), len(ctx.functions))),
        'obligations': len(ctx.obs),
        'discharged': st['ok'],
        'undecided': st['undecided'],
        'violated': st['bad'],
        'known_findings': [k for k, d in listed],
        'rules': per,
        'counts': ctx.counts,
        'modules_parsed': len(ctx.prog.modules),
        'functions_interpreted': sorted(ctx.functions),
        'instances': [{'rule': o.rule, 'construct': o.key,
                       'status': o.status, 'where': o.where,
                       'detail': o.msg[:300]} for o in shown],
    }
    ev = {
        'property': ctx.prop,
        'tier': ctx.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': cov,
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 3),
        'violations': len(bad),
        'findings': [{'rule': o.rule, 'construct': o.key, 'where': o.where,
                      'detail': o.msg} for o in bad],
    }
    path = path or os.path.join(HERE, 'evidence', ctx.prop + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    return path
