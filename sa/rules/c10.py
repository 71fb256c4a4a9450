"""C10: wrapping and unwrapping of session keys."""
from .. import terms as tm
from ..secmodel import BLOCK, cfb, octet_sum
from ..sigmodel import F, Key, mpi, whole
from ..terms import const, mk
from .c01 import KEYLEN
from .common import Run, SPEC

NO = const('no')
WORD = const(b'P\xc3\xa4ss word')


def tup(*a):
    return mk('tuple', *a)


def rsa(b):
    return b.op == 'call' and b.args[0].endswith('PKCS115_Cipher') or \
        b.op == 'call' and b.args[0] == 'Crypto.Cipher.PKCS1_v1_5.new'


def elgamal(b):
    return b.op == 'call' and b.args[0] == 'Crypto.PublicKey.ElGamal.construct'


class Primitive(object):
    """Stands for the public-key operation: gives chosen results and keeps
    what it was given."""

    def __init__(self, result):
        self.result = result
        self.calls = []

    def intrinsics(self):
        return {'.encrypt': self.hook('encrypt'),
                '.decrypt': self.hook('decrypt'),
                'Crypto.Cipher.PKCS1_v1_5.new': self.new}

    def new(self, ip, name, args, kw, st, node):
        return mk('call', name, tuple(ip.snapshot(a, st) for a in args), ())

    def hook(self, what):
        def f(ip, b, args, kw, st, node):
            t = ip.snapshot(b, st)
            if not (rsa(t) or elgamal(t)):
                return NotImplemented
            a = [ip.snapshot(x, st) for x in args]
            self.calls.append((what, t, a))
            return self.result(a)
        return f


def accumulate(name, bits):
    """Octets of a number and its multiprecision form."""
    q, x = mpi(name, bits)
    return tm.bseq(q[1:]), q


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'session')
    c.rule('message', 'what is encrypted for a recipient is the algorithm, '
           'the key and the sum of its octets modulo 65536, under the '
           'recipient\'s own key', 20)
    c.rule('packet', 'the packet holds the recipient\'s key ID, algorithm and '
           'the numbers of the ciphertext', 20)
    c.rule('given', 'the whole ciphertext is given to the primitive', 10)
    c.rule('unwrap', 'unwrapping gives algorithm and key exactly when the '
           'padding is well formed and the sum matches', 20)
    c.rule('lock', 'with a passphrase, algorithm and key are encrypted under '
           'the derived key with an all-zero initial block', 10)
    c.rule('unlock', 'unwrapping with the passphrase is the inverse', 20)

    thorough = c.tier == 'thorough'
    lens = sorted(set(KEYLEN.values())) + [5]
    if thorough:
        lens += [8, 17, 31, 33, 48, 64, 100]
    for algo in (1, 2, 16):
        for kver in (4, 3) if algo != 16 else (4,):
            for n in lens:
                for short in (0, 1, 9, 17):
                    if short and n != 32 and not thorough:
                        continue
                    wrap(c, sp, algo, kver, n, short)
            for n in (0, 1, 2, 4, 5, 11, 19, 27, 35, 36) + (
                    tuple(range(12, 34)) if thorough else ()):
                for short in (0, 1, 9, 17):
                    if short and n != 35 and not thorough:
                        continue
                    for pad in ('ok', 'bad') if algo != 16 else (
                            'ok', 'type', 'first', 'none', 'short', 'least'):
                        unwrap(c, sp, algo, kver, n, short, pad)
    for cipher in sorted(BLOCK):
        for s2k in (0, 1, 3):
            for algorithm in sorted(KEYLEN) if cipher == 9 or thorough else (
                    cipher, 9, 2):
                passphrase(c, sp, cipher, s2k, algorithm)


def sym(n):
    return F('sk', n)


def wrap(c, sp, algo, kver, n, short):
    lab = 'algorithm %d,v%d,%d octets,%d bits short' % (algo, kver, n, short)

    def go():
        key = Key(kver, algo)
        bits = 1024 - short
        ct, q = accumulate('cipher', bits)
        k = 128
        full = tm.bseq([('be', k, tm.exactint('cipher', bits))])
        if algo == 16:
            ct2, q2 = accumulate('cipher2', 1019 - short)
            p = Primitive(lambda a: tup(ct, ct2))
            q = q + q2
        else:
            p = Primitive(lambda a: full)
        sk = sym(n)
        r = Run(c, sp, 'wrap', [key.packet(), const(9), sk, tm.FALSE],
                intrinsics=p.intrinsics())
        calls = [x for x in p.calls if x[0] == 'encrypt']
        want = tm.bseq([('k', b'\3'), ('c', key.kid),
                        ('k', bytes([algo]))] + q)
        c.same('packet', lab, tm.phi(r.accept, r.value, NO), want, r.where)
        if r.accept is tm.FALSE:
            return
        if len(calls) != 1:
            return c.ob('message', lab, False if not calls else None,
                        'the primitive is used %d times' % len(calls),
                        r.where)
        what, obj, a = calls[0]
        m = tm.bseq([('k', b'\x09'), ('c', sk), (
            'be', 2, tm.bits(octet_sum(sk, n), 0, 16))])
        mine = obj
        if algo != 16:
            mine = obj.args[1][0]
        got = a[0]
        if algo == 16:
            size = n + 3
            got = tup(
                tm.length(got), tm.slice_(got, tm.ZERO, const(2)),
                tm.slice_(got, const(k - size - 1), const(k)))
            m = tup(const(k), const(b'\0\2'),
                    tm.bseq([('k', b'\0'), ('c', m)]))
        c.same('message', lab, tup(got, mine.args[1][0]),
               tup(m, key.params), r.where)
    c.guard('message', lab, go)


def unwrap(c, sp, algo, kver, n, short, pad):
    lab = 'algorithm %d,v%d,%d octets,%d bits short,padding %s' % (
        algo, kver, n, short, pad)

    def go():
        key = Key(kver, algo)
        bits = 1024 - short
        ct, q = accumulate('cipher', bits)
        k = 128
        full = tm.bseq([('be', k, tm.exactint('cipher', bits))])
        m = F('plain', n)
        if algo == 16:
            ct2, q2 = accumulate('cipher2', 1019 - short)
            q = q + q2
            ps = k - 3 - n
            if pad == 'least':
                ps = 8
            elif pad == 'short':
                ps = 7
            body = b'\2' + b'\x55' * ps + b'\0'
            tail = [('c', m)] if n else []
            if pad in ('least', 'short'):
                # the zero octet comes early
                tail = [('c', F('plain', k - 3 - ps))]
            em = {'type': tm.bseq([('k', b'\1' + body[1:])] + tail),
                  'first': tm.bseq([('k', b'\1' + body)] + tail),
                  'none': const(b'\2' + b'\x55' * (k - 2))}.get(
                      pad, tm.bseq([('k', body)] + tail))
            if pad in ('least', 'short') and n != 35:
                return
            p = Primitive(lambda a: em)
        else:
            p = Primitive(lambda a: m if pad == 'ok' else a[1])
        body = [('k', b'\3'), ('c', key.kid), ('k', bytes([algo]))] + q
        # with a secret key of the same numbers
        r = Run(c, sp, 'unwrap', [key.packet('secret'), whole(1, body)],
                intrinsics=p.intrinsics())
        calls = [x for x in p.calls if x[0] == 'decrypt']
        good = pad in ('ok', 'least')
        x = m
        if pad == 'least':
            x = F('plain', k - 3 - 8)
        z = int(tm.cval(tm.length(x)))
        if not good or z < 3:
            want = NO
        else:
            keyo = tm.slice_(x, const(1), const(z - 2))
            s = octet_sum(keyo, z - 3)
            want = tm.phi(
                tm.cmp_('==', tm.rd(x, const(z - 2), 2), tm.bits(s, 0, 16)),
                tup(tm.item(x, tm.ZERO), keyo), NO)
        if r.accept is tm.FALSE or r.value.op == 'noreturn':
            c.same('unwrap', lab, NO, want, r.where)
        else:
            c.same('unwrap', lab, tm.phi(r.accept, r.value, NO), want,
                   r.where)
        if not good:
            return
        if len(calls) != 1:
            return c.ob('given', lab, False if not calls else None,
                        'the primitive is used %d times' % len(calls),
                        r.where)
        what, obj, a = calls[0]
        if algo == 16:
            c.same('given', lab, as_numbers(a[0]), tup(
                tm.exactint('cipher', bits),
                tm.exactint('cipher2', 1019 - short)), r.where)
        else:
            c.same('given', lab, a[0], full, r.where)
    c.guard('unwrap', lab, go)


def as_numbers(t):
    if t.op == 'tuple':
        return tup(*[number(x) for x in t.args])
    return t


def number(t):
    """The number that octets are."""
    p = [x for x in tm.norm_parts(tm.part_of(t))
         if x[0] != 'k' or x[1].strip(b'\0')]
    if len(p) == 1 and p[0][0] == 'be':
        return p[0][2]
    return tm.rd(t, tm.ZERO, int(tm.cval(tm.length(t))))


def s2k_octets(s2k):
    s = [('k', bytes([s2k, 8]))]
    if s2k:
        s.append(('c', F('salt', 8)))
    if s2k == 3:
        s.append(('k', b'\x00'))
    return s


def passphrase(c, sp, cipher, s2k, algorithm):
    lab = 'cipher %d,s2k %d,key for %d' % (cipher, s2k, algorithm)

    def go():
        spec = s2k_octets(s2k)
        A = const(cipher)
        n = KEYLEN[algorithm]
        sk = sym(n)
        key = Run(c, sp, 'key_of', [tm.bseq(spec), A, WORD]).value
        ctor = cfb(cipher, key, const(bytes(BLOCK[cipher])))
        plain = [('k', bytes([algorithm])), ('c', sk)]
        sealed = tm.strm('encrypt', ctor, tm.bseq(plain))
        body = [('k', bytes([4, cipher]))] + spec
        r = Run(c, sp, 'lock', [tm.bseq(spec), A, WORD, const(algorithm), sk])
        c.same('lock', lab, tm.phi(r.accept, r.value, NO), tup(
            const(3), tm.bseq(body + [('c', sealed)])), r.where)
        for fn in ('unlock', 'unlock_packet'):
            e = F('sealed', n + 1)
            d = tm.strm('decrypt', ctor, e)
            r = Run(c, sp, fn, [whole(3, body + [('c', e)]), WORD])
            c.same('unlock', '%s,%s' % (lab, fn),
                   tm.phi(r.accept, r.value, NO),
                   tup(tm.item(d, tm.ZERO), tm.slice_(d, const(1), tm.NONE)),
                   r.where)
            # the derived key itself
            r = Run(c, sp, fn, [whole(3, body), WORD])
            c.same('unlock', '%s,%s,no key' % (lab, fn),
                   tm.phi(r.accept, r.value, NO), tup(A, key), r.where)
        r = Run(c, sp, 'lock_and_unlock', [
            tm.bseq(spec), A, WORD, const(algorithm), sk])
        c.same('unlock', lab + ',again', tm.phi(r.accept, r.value, NO),
               tup(const(algorithm), sk), r.where)
    c.guard('lock', lab, go)
