"""C24: packet order of transferable keys, and what becomes of each packet."""
import itertools
import random

from .. import terms as tm
from ..terms import const, mk
from .c14 import F, mpi, public, whole
from .common import Run, SPEC

MUST, MUSTNOT, FREE = 'accept', 'reject', 'free'
# letter -> signature type
SIGS = {'D': 0x1f, 'R': 0x20, 'C': 0x13, 'c': 0x10, 'e': 0x11, 'f': 0x12,
        'X': 0x30, 'B': 0x18, 'V': 0x28, '0': 0x00, '1': 0x01, '2': 0x02,
        'b': 0x19, '4': 0x40, '5': 0x50}
CERT = 'CcefX'
CHUNK = 20
# d, p, q, u and their checksum
SEC = [('k', b''.join(b'\0\4%c' % i for i in (8, 9, 10, 11)) +
        bytes([0, 4 * 4 + 38]))]


def signature(letter, no):
    st = SIGS[letter]
    m, _ = mpi('sig_%s%d' % (letter, no), 17)
    # one hashed subpacket: creation time
    return tm.bseq(whole(2, [
        ('k', bytes([4, st, 1, 2, 0, 6, 5, 2])), ('c', F('t', 4)),
        ('k', bytes([0, 0, st, no]))] + m))


def signature3(no):
    m, _ = mpi('sig3_%d' % no, 17)
    return tm.bseq(whole(2, [('k', bytes([3, 5, 0x10])), ('c', F('t', 4)),
                             ('c', F('kid', 8)), ('k', bytes([1, 2, 0x77, no]))
                             ] + m))


def pool(version, secret):
    """{letter+number: packet octets}"""
    out = {}
    for no in (1, 2, 3):
        for l in SIGS:
            out[l, no] = signature(l, no)
        out['3', no] = signature3(no)
        out['U', no] = tm.bseq(whole(13, [('k', b'user %d' % no)]))
        out['A', no] = tm.bseq(whole(17, [
            ('k', b'\x15\x01\x10\x00\x01\x01' + bytes(12) + b'img%d' % no)]))
        pub, _ = public(4, 1, (65, 17))
        sec = SEC
        t = ('c', F('ts%d' % no, 4))
        pub[1] = t
        out['S', no] = tm.bseq(
            whole(7, pub + [('k', b'\0')] + sec) if secret else
            whole(14, pub))
        out['s', no] = tm.bseq(
            whole(14, pub) if secret else
            whole(7, pub + [('k', b'\0')] + sec))
        out['T', no] = tm.bseq(whole(12, [('k', b'\0\0')]))
        out['L', no] = tm.bseq(whole(11, [('k', b'b\0\0\0\0\0data')]))
        out['Z', no] = tm.bseq(whole(60, [('k', b'zz')]))
        out['M', no] = tm.bseq(whole(10, [('k', b'PGP')]))
    pub, _ = public(version, 1, (65, 17))
    sec = SEC
    out['K', 1] = tm.bseq(whole(5, pub + [('k', b'\0')] + sec) if secret else
                          whole(6, pub))
    out['k', 1] = tm.bseq(whole(6, pub) if secret else
                          whole(5, pub + [('k', b'\0')] + sec))
    return out


def classify(seq, version):
    """RFC 4880 11.1 (v4) and 11.2; what it leaves open is free."""
    if not seq or seq[0] != 'K':
        return MUSTNOT
    if any(x in 'KkLZMs' for x in seq[1:]):
        return MUSTNOT
    stage = 'K'
    free = False
    last = 'K'
    in_block = []
    for i, x in enumerate(seq[1:], 1):
        if x == 'T':
            if last not in SIGS and last != 'T' and last != '3':
                free = True
            if stage == 'S' and not in_block:
                free = True
            last = 'T'
            continue
        if x in 'UAS':
            if stage == 'S' and 'B' not in in_block:
                return MUSTNOT
            if x in 'UA' and stage == 'S':
                return MUSTNOT
            if x == 'S' and version < 4:
                return MUSTNOT
            if x == 'U' and stage == 'A':
                free = True         # intermixing
            stage = x
            in_block = []
        elif x in 'DR':
            if stage != 'K':
                return MUSTNOT
            if x == 'D' and 'R' in in_block:
                free = True
            in_block.append(x)
        elif x in CERT or x == '3':
            if stage not in 'UA':
                return MUSTNOT
            in_block.append(x)
        elif x == 'B':
            if stage != 'S':
                return MUSTNOT
            if in_block:
                free = True         # RFC: one binding signature
            in_block.append(x)
        elif x == 'V':
            if stage != 'S' or 'B' not in in_block:
                return MUSTNOT
            if in_block != ['B']:
                free = True
            in_block.append(x)
        else:
            return MUSTNOT
        last = x
    if stage == 'S' and 'B' not in in_block:
        return MUSTNOT
    return FREE if free else MUST


def number(seq, dup):
    """Distinct packets of one kind, or all equal."""
    seen = {}
    out = []
    for x in seq:
        seen[x] = min(3, seen.get(x, 0) + 1)
        out.append((x, 1 if dup or x in 'Kk' else seen[x]))
    return out


def expected(seq, items):
    """The description of the key spec.tkeys.describe gives."""
    prim, uids, attrs, subs = [], [], [], []
    cur = prim
    for (x, no) in seq[1:]:
        if x == 'T':
            continue
        if x in 'UAS':
            cur = []
            {'U': uids, 'A': attrs, 'S': subs}[x].append(((x, no), cur))
        else:
            st = 0x10 if x == '3' else SIGS[x]
            cur.append(mk('tuple', const(bytes([0x77 if x == '3' else st,
                                                no])), const(st), tm.TRUE))

    def content(p):
        return tm.slice_(items[p], const(2), tm.NONE)

    def tup(l):
        return mk('tuple', *l)
    return mk(
        'tuple', const('key'), items[seq[0]], tup(prim),
        tup([mk('tuple', content(p), tup(s)) for p, s in uids]),
        tup([mk('tuple', content(p), tup(s)) for p, s in attrs]),
        tup([mk('tuple', items[p], tup(s), tm.TRUE) for p, s in subs]),
        tup([items[p] for p in seq if p[0] != 'T']))


def sequences(tier):
    for n in (0, 1, 2):
        for t in itertools.product('DRCcefX3BV012b45UASsTKkLZM', repeat=n):
            yield 'K' + ''.join(t)
    for x in 'DRCXBVUASTkLZM':
        yield x
        yield x + 'K'
    core = 'DRCXBVUAST'
    for t in itertools.product(core, repeat=3):
        yield 'K' + ''.join(t)
    small = 'UACSBVT' if tier != 'quick' else 'UASCB'
    for t in itertools.product(small, repeat=4):
        yield 'K' + ''.join(t)
    for n in (1, 2, 3):
        for t in itertools.product('TVBS', repeat=n):
            yield 'KSB' + ''.join(t)
            yield 'KUSB' + ''.join(t)
        for t in itertools.product('DRT', repeat=n):
            yield 'KD' + ''.join(t)
    rng = random.Random(7)
    for i in range(150 if tier == 'quick' else 3000):
        s = 'K' + 'D' * rng.choice((0, 0, 1, 2)) + 'R' * rng.choice((0, 0, 1))
        for _ in range(rng.randrange(4)):
            s += 'U' + ''.join(rng.choice('CcefX3T' if j else 'CcefX3')
                               for j in range(rng.randrange(4)))
        for _ in range(rng.randrange(3)):
            s += 'A' + ''.join(rng.choice('CcefX') for j in range(
                rng.randrange(3)))
        for _ in range(rng.randrange(4)):
            s += 'SB' + rng.choice(('', 'T', 'TT', 'V', 'V', 'VT',
                                     'TTV', 'VTTT'))
        yield s
        l = list(s)
        j = rng.randrange(1, len(l) + 1)
        op = rng.randrange(3)
        if op == 0:
            l.insert(j, rng.choice(core))
        elif len(l) > 2:
            j = min(j, len(l) - 1)
            k = rng.randrange(1, len(l))
            if op == 1:
                l[j], l[k] = l[k], l[j]
            else:
                del l[j]
        yield ''.join(l)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'tkeys')
    c.rule('order', 'a packet sequence outside the RFC 4880 11.1 grammar is '
           'rejected', 500)
    c.rule('accepted', 'a packet sequence of the grammar is accepted', 50)
    c.rule('complete', 'every packet of an accepted sequence is attached to '
           'the component it follows and written back in place', 60)
    seqs = sorted(set(sequences(c.tier)), key=lambda s: (len(s), s))
    todo = [(4, False, s) for s in seqs]
    todo += [(4, True, s) for s in seqs if len(s) != 4 and len(s) != 5]
    todo += [(3, False, s) for s in seqs if len(s) <= 3]
    for ver in (3, 4):
        for secret in (False, True):
            mine = [s for v, x, s in todo if v == ver and x == secret]
            items = pool(ver, secret)
            chunk = []
            for s in mine:
                chunk.append(s)
                if sum(map(len, chunk)) > 4 * CHUNK or len(chunk) == CHUNK:
                    one(c, sp, ver, secret, chunk, items)
                    chunk = []
            if chunk:
                one(c, sp, ver, secret, chunk, items)


def one(c, sp, ver, secret, chunk, items):
    label = 'v%d %s' % (ver, 'secret' if secret else 'public')
    jobs = []
    for s in chunk:
        jobs.append((s, number(s, False)))
        d = number(s, True)
        if d != jobs[-1][1]:
            jobs.append((s + ' equal', d))

    names = sorted(set(p for _, q in jobs for p in q))
    tup = mk('tuple', *[items[n] for n in names])
    where = {n: i for i, n in enumerate(names)}

    def go():
        arg = mk('tuple', *[mk('tuple', *[const(where[p]) for p in q])
                            for _, q in jobs])
        a = Run(c, sp, 'load', [const(secret), tup, arg])
        v = a.value
        if v.op != 'tuple' or len(v.args) != len(jobs):
            for s, q in jobs:
                c.ob('order', label + ' ' + s, None, 'no result', a.where)
            return
        for (s, q), r in zip(jobs, v.args):
            judge(c, label + ' ' + s, classify(s.split(' ')[0], ver), r,
                  q, items, a.where)
    c.guard('order', '%s %s..%s' % (label, chunk[0], chunk[-1]), go)


def judge(c, key, kind, r, seq, items, where):
    no = const('rejected')
    while r.op == 'phi' and r.args[0].op == 'exc' and r.args[1] is no:
        r = r.args[2]       # an operation that might fail otherwise
    if kind == MUSTNOT:
        if r is no:
            return c.ob('order', key, True, 'rejected', where)
        if r.op == 'tuple':
            return c.ob('order', key, False, 'accepted: packet sequence %s is '
                        'not in the order of RFC 4880 11.1' % key, where)
        return c.ob('order', key, None, tm.show(r, 3), where)
    if r is no:
        if kind == MUST:
            return c.ob('accepted', key, False, 'packet sequence %s is '
                        'rejected' % key, where)
        return
    if r.op != 'tuple':
        return c.ob('accepted', key, None, tm.show(r, 3), where)
    if kind == MUST:
        c.ob('accepted', key, True, 'accepted', where)
    c.same('complete', key, r, expected(seq, items), where)
