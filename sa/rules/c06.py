"""C06: unlocking secret keys."""
from .. import terms as tm
from ..interp import State
from ..secmodel import BLOCK, WORD, Secret, cfb, octet_sum, reach
from ..sigmodel import F, Key, SEC, mpi, plen
from ..terms import const, mk
from .common import Run, SPEC

NO = const('rejected')
NONE = const(None)
# small numbers: the sums over octets stay readable
LARGE = {'d': 2045, 'p': 1024, 'q': 1023, 'u': 1021}
SMALL = {'d': 61, 'p': 32, 'q': 31, 'u': 29, 'x': 30}


def tup(*a):
    return mk('tuple', *a)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'secrets')
    c.rule('accept', 'unlocking succeeds exactly when the stored check '
           'octets match the decrypted values, and gives those values', 60)
    c.rule('packet', 'a secret key packet is decrypted under the same '
           'condition', 20)
    c.rule('implied', 'whatever the octets decrypted are, they are accepted '
           'only if the check octets match', 10)
    c.rule('flag', 'the key is marked unlocked only after the comparison', 20)
    c.rule('written', 'protecting values appends the check octets over the '
           'same octets and encrypts both', 20)
    c.rule('inverse', 'what was protected is accepted and gives the same '
           'values', 10)

    def cases():
        ciphers = (2, 3, 7, 9, 11, 10) if c.tier == 'quick' else (
            1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13)
        for algo in (1, 2, 3, 16, 17, 20):
            for usage in (254, 255):
                for n, ci in enumerate(ciphers):
                    if n > 1 and algo not in (1, 17) and c.tier == 'quick':
                        continue
                    for s2k in ((3, 1, 0) if n == 0 else (3,)):
                        yield 4, algo, usage, ci, s2k
            for ci in (9, 3):
                yield 4, algo, ci, ci, 0
            yield 4, algo, 0, 0, 0
        for algo in (1, 2, 3):
            for ver in (3, 2):
                for ci in ciphers[:3]:
                    yield ver, algo, 255, ci, 3
                    yield ver, algo, ci, ci, 0
                yield ver, algo, 0, 0, 0

    for ver, algo, usage, ci, s2k in cases():
        lab = 'v%d,algorithm %d,usage %d,cipher %d,s2k %d' % (
            ver, algo, usage, ci, s2k)
        key = Key(ver, algo)

        def go():
            s = Secret(c, sp, ver, algo, usage, ci, s2k, sizes=SMALL)
            names = tup(*[const(n) for n in s.names])
            want = tup(*[s.values[n] for n in s.names])
            good = tm.phi(s.right, want, NO)
            kinds = ['secret'] + (['subkey'] if ver == 4 else [])
            for kind in kinds:
                ps = tup(s.packet(key, kind))
                if kind == 'subkey':
                    ps = tup(Secret(c, sp, 4, 1, 0, tag='_primary', sizes=SMALL).packet(
                        Key(4, 1, '_primary')), s.packet(key, kind))
                n = const(len(ps.args) - 1)
                r = Run(c, sp, 'values', [ps, n, names, WORD])
                # the primary key is unlocked by itself only
                c.same('accept', '%s,%s' % (lab, kind), tm.phi(
                    r.accept, r.value, NO), good, r.where)
            r = Run(c, sp, 'packet_values', [s.packet(key), names, WORD])
            c.same('packet', lab, tm.phi(r.accept, r.value, NO), good,
                   r.where)
            r = Run(c, sp, 'unlock', [tup(s.packet(key)), WORD])
            for i, x in enumerate(r.raises):
                st = State({}, dict(x.heap), x.path)
                flags = [t for p, t in reach(r.ip, r.r.value, st)
                         if p == '._locked']
                bad = [t for t in flags if t is not tm.TRUE and
                       t.op == 'const']
                c.ob('flag', '%s,failing %d' % (lab, i), not bad and True,
                     'locked: %s' % ', '.join(tm.show(t, 3) for t in flags),
                     r.where)
            if not r.raises:
                c.ob('flag', lab, None, 'unlocking never fails')
        c.guard('accept', lab, go)

    # sums that do not fit the check octets
    for usage in (255, 9, 0):
        lab = 'large,usage %d' % usage

        def go():
            s = Secret(c, sp, 4, 1, usage, 9, 0, sizes=LARGE)
            names = tup(*[const(n) for n in s.names])
            r = Run(c, sp, 'packet_values', [s.packet(Key(4, 1)), names,
                                             WORD])
            c.same('packet', lab, tm.phi(r.accept, r.value, NO), tm.phi(
                s.right, tup(*[s.values[n] for n in s.names]), NO), r.where)
        c.guard('packet', lab, go)

    # anything decrypted
    for ci, size in ((9, 20), (9, 36), (9, 24), (3, 22), (3, 40)):
        for hashed in (False, True):
            for used in (False, True):
                lab = 'cipher %d,%d octets,%s%s' % (
                    ci, size, 'hash' if hashed else 'checksum',
                    '' if used else ',unencrypted')
                if not used and hashed:
                    continue

                def go():
                    p = F('plain', size)
                    if used:
                        key, iv = F('key', 32 if ci == 9 else 16), F(
                            'iv', BLOCK[ci])
                        data = tm.strm('encrypt', cfb(ci, key, iv), p)
                    else:
                        key, iv, data = const(b''), NONE, p
                    k = 20 if hashed else 2
                    body = tm.slice_(p, tm.ZERO, const(size - k))
                    tail = tm.slice_(p, const(size - k), const(size))
                    if hashed:
                        right = tm.cmp_('==', tail, mk('digest', mk(
                            'alg', 'sha1'), body))
                    else:
                        right = tm.cmp_('==', tm.rd(p, const(size - 2), 2),
                                        tm.bits(octet_sum(body, size - 2),
                                                0, 16))
                    r = Run(c, sp, 'decrypted', [
                        const(4), key, const(ci if used else 0), iv, data,
                        const(not hashed), const(hashed)])
                    c.same('implied', lab, tm.and_(r.accept, tm.not_(right)),
                           tm.FALSE, r.where)
                c.guard('implied', lab, go)

    # protecting
    for ver in (4, 3, 2):
        for ci in (9, 3, 2, 11):
            for kind in (254, 255):
                if ver < 4 and kind == 254:
                    continue
                for algo in (1, 17):
                    if ver < 4 and algo == 17:
                        continue
                    lab = 'v%d,cipher %d,algorithm %d,%s' % (
                        ver, ci, algo, 'hash' if kind == 254 else 'checksum')

                    def go():
                        s = Secret(c, sp, ver, algo, kind, ci, 0, sizes=SMALL)
                        s.key = F('key', {9: 32, 3: 16, 2: 24, 11: 16}[ci])
                        t = s.octets
                        if kind == 254:
                            s.check = mk('digest', mk('alg', 'sha1'), t)
                        else:
                            s.check = tm.bseq([('be', 2, tm.bits(octet_sum(
                                t, plen(s.plain)), 0, 16))])
                        vals = tup(*[s.values[n] for n in s.names])
                        mode = [const(kind == 255), const(kind == 254)]
                        a = [const(ver), vals, s.key, const(ci), s.iv] + mode
                        r = Run(c, sp, 'encrypted', a)
                        want = s.encrypt(s.plain, s.pieces)
                        c.same('written', lab, tm.phi(
                            r.accept, r.value, NO), want, r.where)
                        r = Run(c, sp, 'both_ways', a)
                        c.same('inverse', lab, tm.phi(
                            r.accept, r.value, NO), vals, r.where)
                    c.guard('written', lab, go)
