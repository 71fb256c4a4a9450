"""C11: recipients of session key packets."""
from .. import terms as tm
from ..sigmodel import F, Key, mpi, whole
from ..terms import const, mk
from .c10 import Primitive, accumulate, tup
from .common import Run, SPEC

NO = const('no')
ZEROS = const(bytes(8))


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'session')
    c.rule('hidden', 'a packet for a hidden recipient carries the all-zero '
           'key ID and nothing but the ciphertext else', 8)
    c.rule('named', 'a packet for an ordinary recipient carries its key ID',
           8)
    c.rule('each', 'a message for several recipients names the ordinary ones '
           'and none of the hidden ones', 6)
    c.rule('read', 'an all-zero key ID is read as none and written back, any '
           'other one is kept', 8)
    for algo in (1, 2, 16):
        for kver in (4, 3) if algo != 16 else (4,):
            for n in (16, 32):
                for hidden in (True, False):
                    one(c, sp, algo, kver, n, hidden)
    for here in ((), (1,), (1, 16), (1, 1)):
        for hidden in ((), (1,), (16, 1)):
            if here or hidden:
                several(c, sp, here, hidden)
    for algo in (1, 16):
        single(c, sp, algo)
    for algo in (1, 2, 3, 16, 17, 99):
        for bits in (1, 8, 1024, 1015):
            read(c, sp, algo, bits)


def one(c, sp, algo, kver, n, hidden):
    lab = 'algorithm %d,v%d,%d octets' % (algo, kver, n)

    def go():
        key = Key(kver, algo)
        ct, q = accumulate('cipher', 1024)
        if algo == 16:
            ct2, q2 = accumulate('cipher2', 1019)
            p, q = Primitive(lambda a: tup(ct, ct2)), q + q2
        else:
            p = Primitive(lambda a: ct)
        r = Run(c, sp, 'wrap', [key.packet(), const(9), F('sk', n),
                                const(hidden)], intrinsics=p.intrinsics())
        kid = ZEROS if hidden else key.kid
        c.same('hidden' if hidden else 'named', lab,
               tm.phi(r.accept, r.value, NO), tm.bseq(
                   [('k', b'\3'), ('c', kid), ('k', bytes([algo]))] + q),
               r.where)
    c.guard('hidden' if hidden else 'named', lab, go)


def head(kid, algo):
    return tm.bseq([('k', b'\3'), ('c', kid), ('k', bytes([algo]))])


def both(a):
    t = a[0]
    ct, q = accumulate('cipher', 1024)
    ct2, q2 = accumulate('cipher2', 1019)
    return ct, tup(ct, ct2)


def several(c, sp, here, hidden):
    lab = 'for %s,hidden %s' % (list(here), list(hidden))

    def go():
        keys = [Key(4, a, '_%d' % i) for i, a in enumerate(here)]
        secret = [Key(4, a, '_h%d' % i) for i, a in enumerate(hidden)]
        rsa, elg = both([None])

        class P(Primitive):
            def hook(self, what):
                def f(ip, b, args, kw, st, node):
                    t = ip.snapshot(b, st)
                    if t.op != 'call':
                        return NotImplemented
                    if t.args[0].endswith('ElGamal.construct'):
                        return elg
                    if t.args[0].endswith('PKCS115_Cipher') or \
                            t.args[0].endswith('PKCS1_v1_5.new'):
                        return rsa
                    return NotImplemented
                return f
        p = P(None)
        r = Run(c, sp, 'wrap_for', [
            tup(*[k.packet() for k in keys]),
            tup(*[k.packet() for k in secret]), const(9), F('sk', 32)],
            intrinsics=p.intrinsics())
        c.same('each', lab, tm.phi(r.accept, r.value, NO), tup(
            *[head(k.kid, k.algo) for k in keys] +
            [head(ZEROS, k.algo) for k in secret]), r.where)
    c.guard('each', lab, go)


def single(c, sp, algo):
    lab = 'for one of algorithm %d' % algo

    def go():
        key = Key(4, algo)
        rsa, elg = both([None])
        p = Primitive(lambda a: elg if algo == 16 else rsa)
        r = Run(c, sp, 'wrap_one', [key.packet(), const(7), F('sk', 16)],
                intrinsics=p.intrinsics())
        c.same('each', lab, tm.phi(r.accept, r.value, NO),
               tup(head(key.kid, algo)), r.where)
    c.guard('each', lab, go)


def read(c, sp, algo, bits):
    def go():
        q, x = mpi('cipher', bits)
        for name, kid in (('none', bytes(8)), ('one', bytes(7) + b'\1'),
                          ('top', b'\x80' + bytes(7)),
                          ('some', bytes.fromhex('0123456789abcdef')),
                          ('high', b'\xff' * 8)):
            lab = '%s,algorithm %d,%d bits' % (name, algo, bits)
            body = [('k', b'\3' + kid + bytes([algo]))] + q
            r = Run(c, sp, 'recipient', [whole(1, body)])
            c.same('read', lab, tm.phi(r.accept, r.value, NO), tup(
                const(None if name == 'none' else kid.hex().upper()),
                tm.bseq(body)), r.where)
    c.guard('read', 'algorithm %d,%d bits' % (algo, bits), go)
