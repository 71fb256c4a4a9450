"""C33: the packets of messages."""
import itertools
import random

from .. import terms as tm
from ..terms import const, mk
from .c14 import F, mpi, whole
from .common import Run, SPEC

MUST, MUSTNOT, FREE = 'accept', 'reject', 'free'
CHUNK = 16
# P, Y session keys; E, I encrypted data; C, c, z compressed; L, t literal;
# G, g signatures; O one-pass with another following, N the innermost one
GOOD = 'PYEICczLtGgON'
OTHER = 'UKSTMDZ'


def signature(no):
    m, _ = mpi('sig_%d' % no, 17)
    return tm.bseq(whole(2, [
        ('k', bytes([4, no - 1, 1, 2, 0, 6, 5, 2])), ('c', F('t%d' % no, 4)),
        ('k', b'\0\x0a\x09\x10'), ('c', F('kid%d' % no, 8)),
        ('k', bytes([0x66, no]))] + m))


def signature3(no):
    m, _ = mpi('sig3_%d' % no, 17)
    return tm.bseq(whole(2, [('k', bytes([3, 5, no - 1])),
                             ('c', F('t%d' % no, 4)),
                             ('c', F('kid%d' % no, 8)),
                             ('k', bytes([1, 2, 0x77, no]))] + m))


def pool():
    out = {}
    lit = whole(11, [('k', b'b\x04name'), ('c', F('date', 4)),
                     ('c', F('text', 9))])
    for no in (1, 2, 3):
        n = b'%d' % no
        out['L', no] = tm.bseq(whole(11, [
            ('k', b'b\x05name' + n), ('c', F('date', 4)),
            ('c', F('data' + str(no), 9))]))
        out['t', no] = tm.bseq(whole(11, [
            ('k', b'u\x05text' + n), ('c', F('date', 4)),
            ('k', b'text \xc3\xa9' + n)]))
        out['G', no] = signature(no)
        out['g', no] = signature3(no)
        for l, flag in (('O', 0), ('N', 1)):
            out[l, no] = tm.bseq(whole(4, [
                ('k', bytes([3, no - 1, 2, 1])), ('c', F('kid%d' % no, 8)),
                ('k', bytes([flag]))]))
        m, _ = mpi('enc%d' % no, 1021)
        out['P', no] = tm.bseq(whole(1, [
            ('k', b'\3' + (bytes(8) if no == 2 else b'\x81recip%d\xff' % no) +
             b'\1')] + m))
        out['Y', no] = tm.bseq(whole(3, [
            ('k', b'\4\x09\3\x08'), ('c', F('salt%d' % no, 8)),
            ('k', b'\x60'), ('c', F('ek%d' % no, 17))]))
        out['E', no] = tm.bseq(whole(9, [('c', F('e%d' % no, 40))]))
        out['I', no] = tm.bseq(whole(18, [('k', b'\1'),
                                          ('c', F('i%d' % no, 60))]))
        out['C', no] = tm.bseq(whole(8, [('k', b'\0')] + lit))
        # content that is not one message
        out['c', no] = tm.bseq(whole(8, [('k', b'\0')] + lit + lit))
        # a signed message inside
        out['z', no] = tm.bseq(whole(8, [('k', b'\0'), (
            'c', out['O' if no == 3 else 'N', no])] + lit + [
                ('c', out['G', no])]))
        out['U', no] = tm.bseq(whole(13, [('k', b'user')]))
        out['K', no] = tm.bseq(whole(6, [('k', b'\4abcd\1\0\1\1\0\1\1')]))
        out['S', no] = tm.bseq(whole(14, [('k', b'\4abcd\1\0\1\1\0\1\1')]))
        out['T', no] = tm.bseq(whole(12, [('k', b'\0\0')]))
        out['M', no] = tm.bseq(whole(10, [('k', b'PGP')]))
        out['D', no] = tm.bseq(whole(19, [('c', F('mdc', 20))]))
        out['Z', no] = tm.bseq(whole(60, [('k', b'zz')]))
    return out


def tree(seq, items, i=0):
    """[(tree, end, free)] of the message starting at packet i, or None."""
    if i >= len(seq):
        return None
    x, no = seq[i]
    if x in 'Lt':
        return (x, seq[i]), i + 1, False
    if x in 'Ccz':
        return ('C', seq[i]), i + 1, False
    if x in 'PYEI':
        j = i
        while j < len(seq) and seq[j][0] in 'PY':
            j += 1
        if j == len(seq) or seq[j][0] not in 'EI':
            return None
        return ('E', seq[i:j], seq[j]), j + 1, False
    if x in 'Gg':
        j = i
        while j < len(seq) and seq[j][0] in 'Gg':
            j += 1
        r = tree(seq, items, j)
        if r is None:
            return None
        return ('G', False, seq[i:j], r[0]), r[1], r[2]
    if x in 'ON':
        j = i
        free = False
        while True:
            if j >= len(seq):
                return None
            if seq[j][0] not in 'ON':
                free = True         # the flag announced another one
                break
            j += 1
            if seq[j - 1][0] == 'N':
                break
        r = tree(seq, items, j)
        if r is None:
            return None
        n = j - i
        sigs = seq[r[1]:r[1] + n]
        if len(sigs) < n or any(s[0] not in 'Gg' for s in sigs):
            return None
        if [s[1] for s in sigs] != [o[1] for o in reversed(seq[i:j])]:
            free = True             # described otherwise than announced
        return ('G', True, sigs, r[0]), r[1] + n, free or r[2]
    return None


def classify(seq, items):
    if any(x in 'TMZ' for x, no in seq):
        # markers and unknown packets may be skipped
        return FREE if tree([s for s in seq if s[0] not in 'TMZ'], items) \
            else MUSTNOT, None
    r = tree(seq, items)
    if r is None or r[1] != len(seq):
        return MUSTNOT, None
    return FREE if r[2] else MUST, r[0]


def tup(*a):
    return mk('tuple', *a)


def content(t):
    return tm.slice_(t, const(2), tm.NONE)


def described(t, items):
    k = t[0]
    if k == 'L':
        return tup(const('binary'), F('data%d' % t[1][1], 9),
                   const('name%d' % t[1][1]))
    if k == 't':
        return tup(const('text'), const('text \xe9%d' % t[1][1]),
                   const('text%d' % t[1][1]))
    if k == 'C':
        body = tm.slice_(items[t[1]], const(3), tm.NONE)
        inner = tup(const('binary'), F('text', 9), const('name'))
        if t[1][0] == 'c':
            inner = const('rejected')
        if t[1][0] == 'z':
            no = t[1][1]
            inner = tup(const('signed'), tm.TRUE, tup(tup(
                const(bytes([0x66, no])), const(no - 1), tm.TRUE)), inner)
        return tup(const('compressed'), const(0), body, inner)
    if k == 'E':
        ks = [tup(const('session key'), items[s]) for s in t[1]]
        if not ks:
            ks = [tup(const('default'))]
        x = t[2]
        return tup(const('encrypted'), tup(*ks), const(x[0] == 'I'),
                   F('%s%d' % (x[0].lower(), x[1]), 60 if x[0] == 'I' else
                     40))
    return tup(const('signed'), const(t[1]), tup(*[
        tup(const(bytes([0x66 if s[0] == 'G' else 0x77, s[1]])),
            const(s[1] - 1), tm.TRUE) for s in t[2]]),
        described(t[3], items))


def written(t, items):
    k = t[0]
    if k in 'Lt':
        no = t[1][1]
        b = content(items[t[1]])
        n = 7
        return [tup(const('literal'), tm.slice_(b, tm.ZERO, const(n)),
                    tm.slice_(b, const(n + 4), tm.NONE))]
    if k == 'C':
        return [items[t[1]]]
    if k == 'E':
        return [items[s] for s in t[1]] + [items[t[2]]]
    inner = written(t[3], items)
    sigs = [items[s] for s in t[2]]
    if not t[1]:
        return sigs + inner
    ops = [items['O', s[1]] for s in reversed(t[2])]
    ops[-1] = items['N', t[2][0][1]]
    return ops + inner + sigs


def number(seq):
    """One-pass packets carry the numbers of their signatures."""
    seen = {}
    out = []
    stack = []
    for x in seq:
        if x in 'ON':
            n = min(3, 1 + seen.get('G', 0) + 0)
            seen['G'] = n
            stack.append(n)
            out.append((x, n))
        elif x in 'Gg' and stack:
            out.append((x, stack.pop()))
        elif x in 'Gg':
            n = min(3, seen.get('G', 0) + 1)
            seen['G'] = n
            out.append((x, n))
        else:
            n = min(3, seen.get(x, 0) + 1)
            seen[x] = n
            out.append((x, n))
    return out


def sequences(tier):
    yield ''
    everything = GOOD + OTHER
    for n in (1, 2):
        for t in itertools.product(everything, repeat=n):
            yield ''.join(t)
    core = 'PEICLGON' if tier == 'quick' else 'PYEICLtGgON'
    for t in itertools.product(core, repeat=3):
        yield ''.join(t)
    for t in itertools.product('LGNOI' if tier == 'quick' else 'LGNOIPC',
                               repeat=4):
        yield ''.join(t)
    rng = random.Random(5)

    def some(d):
        k = rng.choice('LtCzEPPYGON' if d < 3 else 'LtCI')
        if k in 'LtCz':
            return k
        if k in 'EPY':
            return ''.join(rng.choice('PY') for _ in range(
                0 if k == 'E' else rng.randrange(1, 4))) + rng.choice('EI')
        n = rng.randrange(1, 4)
        if k == 'G':
            return ''.join(rng.choice('Gg') for _ in range(n)) + some(d + 1)
        return 'O' * (n - 1) + 'N' + some(d + 1) + ''.join(
            rng.choice('Gg') for _ in range(n))

    for i in range(200 if tier == 'quick' else 3000):
        s = some(0)
        if len(s) > 10:
            continue
        yield s
        l = list(s)
        op = rng.randrange(4)
        j = rng.randrange(len(l) + 1)
        if op == 0:
            l.insert(j, rng.choice(everything))
        elif op == 1 and len(l) > 1:
            k = rng.randrange(len(l))
            j = min(j, len(l) - 1)
            l[j], l[k] = l[k], l[j]
        elif op == 2:
            l[min(j, len(l) - 1)] = rng.choice(GOOD)
        elif len(l) > 1:
            del l[min(j, len(l) - 1)]
        yield ''.join(l)


def check(c):
    c.maxrec = 12
    sp = SPEC(c, 'grammar')
    c.rule('rejected', 'a packet sequence that is not a message of RFC 4880 '
           '11.3 raises an error', 300)
    c.rule('accepted', 'a message of the grammar is accepted', 50)
    c.rule('complete', 'every packet of a message is found in what is '
           'parsed', 50)
    c.rule('written', 'a message parsed and written again is its packets in '
           'their order', 50)
    c.rule('made', 'a signed message made in memory is written as one-pass '
           'packets in reverse order of the signatures, each with its '
           'signature\'s fields and only the last marked innermost, the '
           'message, and the signatures', 6)
    items = pool()
    seqs = sorted(set(sequences(c.tier)), key=lambda s: (len(s), s))
    chunk = []
    for s in seqs:
        chunk.append(s)
        if sum(map(len, chunk)) > 4 * CHUNK or len(chunk) == CHUNK:
            some(c, sp, chunk, items)
            chunk = []
    if chunk:
        some(c, sp, chunk, items)
    made(c, sp, items)


def some(c, sp, chunk, items):
    jobs = [(s, number(s)) for s in chunk]
    names = sorted(set(p for _, q in jobs for p in q))
    at = {n: i for i, n in enumerate(names)}

    def go():
        a = Run(c, sp, 'load', [
            tup(*[items[n] for n in names]),
            tup(*[tup(*[const(at[p]) for p in q]) for _, q in jobs])])
        v = a.value
        if v.op != 'tuple' or len(v.args) != len(jobs):
            for s, q in jobs:
                c.ob('rejected', s, None, 'no result', a.where)
            return
        for (s, q), r in zip(jobs, v.args):
            judge(c, s, q, r, items, a.where)
    c.guard('rejected', '%s..%s' % (chunk[0], chunk[-1]), go)


def settled(r):
    """Without the operations that might fail in ways not modelled."""
    while r.op == 'phi' and r.args[0].op == 'exc' and \
            r.args[1] is const('rejected'):
        r = r.args[2]
    if r.op == 'tuple':
        return tup(*[settled(x) for x in r.args])
    return r


def judge(c, key, seq, r, items, where):
    kind, t = classify(seq, items)
    no = const('rejected')
    r = settled(r)
    if kind == MUSTNOT:
        if r is no:
            return c.ob('rejected', key, True, 'rejected', where)
        if r.op == 'tuple':
            return c.ob('rejected', key, False, 'accepted: packet sequence '
                        '%s is not a message' % key, where)
        return c.ob('rejected', key, None, tm.show(r, 3), where)
    if kind == FREE:
        return
    if r is no:
        return c.ob('accepted', key, False, 'packet sequence %s is rejected'
                    % key, where)
    if r.op != 'tuple' or len(r.args) != 2:
        return c.ob('accepted', key, None, tm.show(r, 3), where)
    c.ob('accepted', key, True, 'accepted', where)
    c.same('complete', key, r.args[0], described(t, items), where)
    c.same('written', key, r.args[1], tup(*written(t, items)), where)


def made(c, sp, items):
    inner = [[('L', 1)], [('t', 2)], [('C', 1)], [('P', 1), ('I', 1)],
             [('N', 3), ('L', 1), ('G', 3)]]
    cases = []
    for m in inner:
        for sigs in ([('G', 1)], [('g', 2)], [('G', 1), ('G', 2)],
                     [('G', 2), ('g', 1)], [('g', 3), ('G', 2), ('G', 1)],
                     [('G', 3), ('G', 1), ('g', 2)]):
            for flag in (True, False):
                cases.append((m, sigs, flag))
    names = sorted(items)
    at = {n: i for i, n in enumerate(names)}
    at_ = lambda q: tup(*[const(at[p]) for p in q])
    packets = tup(*[items[n] for n in names])

    def label(m, s, f):
        return '%s signed with %s%s' % (
            ''.join(x for x, n in m), ''.join('%s%d' % x for x in s),
            ',one pass' if f else '')

    for m, s, f in cases:
        def go():
            used = sorted(set(m + s))
            a2 = {n: i for i, n in enumerate(used)}
            ix = lambda q: tup(*[const(a2[p]) for p in q])
            a = Run(c, sp, 'one_pass', [
                tup(*[items[n] for n in used]),
                tup(tup(ix(m), ix(s), const(f)))])
            t = ('G', f, s, tree(m, items)[0])
            c.same('made', label(m, s, f),
                   tm.phi(a.accept, a.value, const('fails')),
                   tup(tup(*written(t, items))), a.where)
        c.guard('made', label(m, s, f), go)
    for m in inner:
        def go():
            used = sorted(set(m))
            a2 = {n: i for i, n in enumerate(used)}
            a = Run(c, sp, 'compress', [
                tup(*[items[n] for n in used]),
                tup(*[const(a2[p]) for p in m])])
            v = a.value
            if v.op != 'tuple' or len(v.args) != 2 or \
                    v.args[1].op != 'tuple' or len(v.args[1].args) != 4:
                return c.ob('made', 'compressed ' + label(m, [], False),
                            None, tm.show(v, 3), a.where)
            c.same('made', 'compressed ' + label(m, [], False),
                   settled(v.args[1].args[3]), described(tree(m, items)[0], items),
                   a.where)
        c.guard('made', 'compressed ' + label(m, [], False), go)
