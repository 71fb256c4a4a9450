"""C05: locked secret keys."""
from .. import terms as tm
from ..interp import State
from ..rint import WIDENED
from ..secmodel import Secret, WORD, reach
from ..sigmodel import F, Key, ROLES, mpi, whole
from ..terms import const, mk
from .common import Run, SPEC

HOW = ('relock', 'relock_twice', 'within', 'within_return', 'within_break',
       'within_error')
PUBLIC = {'n': 'modulus_n', 'e': 'exponent_e', 'p': 'prime_p',
          'q': 'group_order_q', 'g': 'group_generator_g',
          'y': 'key_value_y'}


def secret(s):
    return s.op == 'exactint' and s.args[0].startswith('secret_')


class Case(object):
    """A secret key with a secret subkey."""

    def __init__(self, c, sp, version, algo, usage, sub):
        self.keys, self.secs, ps = [], [], []
        for i, (a, u) in enumerate([(algo, usage)] + sub):
            tag = '_%d' % i if i else ''
            k = Key(version if not i else 4, a, tag)
            s = Secret(c, sp, version if not i else 4, a, u, 9 if not i
                       else 3, 3, tag)
            ps.append(s.packet(k, 'subkey' if i else 'secret'))
            self.keys.append(k)
            self.secs.append(s)
        self.packets = mk('tuple', *ps)
        self.label = 'v%d,algorithm %d,usage %d%s' % (
            version, algo, usage, ''.join(
                ',subkey %d usage %d' % x for x in sub))

    def hidden(self, t):
        """t with the stored forms of the secrets made opaque."""
        stored = [s.stored for s in self.secs]

        def f(x):
            if any(x is s for s in stored):
                return tm.sym('stored', 'bytes')
            return None
        return tm.rewrite(t, f)

    def leaks(self, t):
        """A secret mentioned by t, or None."""
        t = self.hidden(t)
        keys = [s.key for s in self.secs if s.key is not None]
        for s in tm.subterms(t):
            if secret(s) or any(s is k for k in keys):
                return s
            if s is WORD or s is const(tm.cval(WORD).encode('utf8')):
                return s
        return None


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'secrets')
    c.rule('erased', 'once a key is locked again no secret value, derived '
           'key or passphrase can be reached from it or its subkeys', 40)
    c.rule('flag', 'a key and its subkeys are locked when loaded, not while '
           'unlocked, and locked afterwards', 20)
    c.rule('exits', 'the unlocking context manager leaves the key locked and '
           'passes an exception on', 10)
    c.rule('failed', 'a failed attempt to unlock leaves nothing unlocked', 8)
    c.rule('refused', 'signing, decrypting and unwrapping with a locked key '
           'give no result made with its secrets', 40)
    c.rule('kept', 'public parameters survive locking, and the key can be '
           'unlocked again', 10)

    def examine(rule, lab, case, r, v, heap, path, where):
        st = State({}, dict(heap), path)
        n = 0
        for p, t in reach(r.ip, v, st):
            n += 1
            s = case.leaks(r.ip.snapshot(t, st) if t.op != 'obj' else t)
            if s is not None:
                if any(x.op in WIDENED for x in tm.subterms(
                        r.ip.snapshot(t, st) if t.op != 'obj' else t)):
                    return c.ob(rule, lab, None, 'maybe in %s' % p)
                return c.ob(rule, lab, False, 'the key still holds %s in %s '
                            '= %s' % (tm.show(s, 3), p or 'itself',
                                      tm.show(t, 4)), where)
        c.ob(rule, lab, True if n > 10 else None, '%d values reachable' % n,
             where)

    def erased(lab, case, fn, args):
        def go():
            r = Run(c, sp, fn, args)
            if r.r.state is None:
                return c.ob('erased', lab, None, 'no normal way out')
            examine('erased', lab, case, r, r.r.value, r.r.state.heap,
                    r.r.state.path, r.where)
        c.guard('erased', lab, go)

    def same(rule, lab, fn, args, want, accept=None):
        def go():
            r = Run(c, sp, fn, args)
            if accept is not None:
                c.same(rule, lab, tm.phi(r.accept, r.value, const('no')),
                       tm.phi(accept, want, const('no')), r.where)
            elif r.accept is tm.FALSE:
                c.ob(rule, lab, None, 'never returns')
            else:
                c.same(rule, lab, r.value, want, r.where)
        c.guard(rule, lab, go)

    def refused(lab, case, fn, args):
        def go():
            r = Run(c, sp, fn, args)
            if r.accept is tm.FALSE:
                return c.ob('refused', lab, True, 'always raises', r.where)
            st = r.r.state
            for p, t in reach(r.ip, r.r.value, st):
                s = case.leaks(r.ip.snapshot(t, st) if t.op != 'obj' else t)
                if s is not None:
                    return c.ob('refused', lab, False, 'the result is made '
                                'with %s (%s)' % (tm.show(s, 3),
                                                  tm.show(t, 4)), r.where)
            c.ob('refused', lab, True, 'only public values are used',
                 r.where)
        c.guard('refused', lab, go)

    cases = []
    subs = {1: [(16, 254)], 17: [(16, 255)], 16: [(1, 254)], 20: [(17, 255)],
            3: [], 2: [(20, 254)]}
    for algo in (1, 2, 3, 16, 17, 20):
        for usage in (254, 255, 0, 9):
            if c.tier == 'quick' and usage in (0, 9) and algo in (2, 3, 20):
                continue
            sub = [(a, u if usage else 0) for a, u in subs[algo]]
            cases.append((4, algo, usage, sub))
    for algo in (1, 2, 3):
        for usage in (255, 9, 0):
            cases.append((3, algo, usage, []))
    cases.append((4, 1, 254, [(17, 255), (16, 254)]))
    HALG = const(8)
    for version, algo, usage, sub in cases:
        case = Case(c, sp, version, algo, usage, sub)
        W = WORD
        parts = range(len(case.secs))
        for how in HOW:
            erased('%s,%s' % (case.label, how), case, how, [case.packets, W])
        for n in parts:
            erased('%s,part %d relocked' % (case.label, n), case,
                   'relock_part', [case.packets, const(n), W])
            same('flag', '%s,part %d' % (case.label, n), 'flags', [
                case.packets, const(n), const(''), W],
                mk('tuple', tm.TRUE, tm.FALSE, tm.TRUE))
            same('exits', '%s,part %d within' % (case.label, n), 'inside', [
                case.packets, const(n), W], mk('tuple', tm.FALSE, tm.FALSE))
            names = [PUBLIC[x] for x in ROLES[case.secs[n].algo] if not (
                x == 'p' and case.secs[n].algo in (1, 2, 3))]
            if case.secs[n].algo not in (1, 2, 3):
                same('kept', '%s,part %d' % (case.label, n),
                     'relocked_fields', [case.packets, const(n), mk(
                         'tuple', *[const(x) for x in names]), W],
                     mk('tuple', *[case.keys[n].vals[x] for x in
                                   ROLES[case.secs[n].algo]]))
            else:
                same('kept', '%s,part %d' % (case.label, n),
                     'relocked_fields', [case.packets, const(n), mk(
                         'tuple', *[const(x) for x in names]), W],
                     mk('tuple', *[case.keys[n].vals[x] for x in
                                   ('n', 'e')]))
            names = case.secs[n].names
            same('kept', '%s,part %d unlocked again' % (case.label, n),
                 'unlocked_again', [case.packets, const(n), mk(
                     'tuple', *[const(x) for x in names]), W],
                 mk('tuple', *[case.secs[n].values[x] for x in names]))
            for what, kind in ((F('text', 9), 0), (const('text'), 1),
                               (const('key'), 0x1f)):
                for v in (3, 4):
                    lab = '%s,part %d,v%d signature type %x' % (
                        case.label, n, v, kind)
                    a = [case.packets, const(n), what, const(v), const(kind),
                         HALG]
                    refused(lab, case, 'sign', a)
                    if v == 4 or c.tier == 'thorough':
                        refused(lab + ',relocked', case, 'sign_relocked',
                                a + [W])
            refused('%s,part %d,decrypt' % (case.label, n), case, 'decrypt',
                    [case.packets, const(n), F('text', 9)])
            a = case.secs[n].algo
            if a in (1, 2, 16, 20):
                m = []
                for i in range(1 if a in (1, 2) else 2):
                    m += mpi('wrapped%d' % i, 1020)[0]
                s = whole(1, [('k', b'\x03'), ('c', F('kid', 8)),
                              ('k', bytes([a]))] + m)
                refused('%s,part %d,unwrap' % (case.label, n), case,
                        'unwrap', [case.packets, const(n), s])
                refused('%s,part %d,unwrap,relocked' % (case.label, n), case,
                        'unwrap_relocked', [case.packets, const(n), s, W])
        same('exits', case.label + ',exception', 'passes_on',
             [case.packets, W], tm.TRUE)

        def failed(case=case):
            r = Run(c, sp, 'unlock', [case.packets, W])
            for i, x in enumerate(r.raises):
                if x.value.op == 'implicit_exc':
                    continue
                examine('failed', '%s,way %d' % (case.label, i), case, r,
                        r.r.value, x.heap, x.path, r.where)
        c.guard('failed', case.label, failed)
