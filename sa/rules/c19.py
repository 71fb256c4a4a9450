"""C19: passphrase-to-key transforms."""
from .. import terms as tm
from ..terms import const, mk
from .common import Run, SPEC

HASH = {1: ('md5', 16), 2: ('sha1', 20), 3: ('ripemd160', 20),
        8: ('sha256', 32), 9: ('sha384', 48), 10: ('sha512', 64),
        11: ('sha224', 28)}
KEYLEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
          12: 24, 13: 32}


def F(n, k):
    return tm.fixed(n, 'bytes', k) if k else const(b'')


def one(parts):
    return tm.bseq(parts) if parts else const(b'')


def cut(t, n, k):
    """The first k of the n octets of t, as parts."""
    if k >= n:
        return [('c', t)]
    return [('c', tm.slice_(t, tm.ZERO, const(k)))] if k else []


def data_for(mode, salt, pw, npw, count):
    if mode == 0:
        return [('c', pw)] if npw else []
    block = [('c', salt)] + ([('c', pw)] if npw else [])
    if mode == 1:
        return block
    n = 8 + npw
    count = max(count, n)
    out = []
    for i in range(count // n):
        out += block
    r = count % n
    if r:
        out += cut(salt, 8, min(r, 8))
        if r > 8:
            out += cut(pw, npw, r - 8)
    return out


def expected(h, algo, mode, salt, pw, npw, count):
    name, size = HASH[h]
    need = KEYLEN[algo]
    ds, n = [], 0
    while n * size < need:
        pre = [('k', bytes(n))] if n else []
        ds.append(('c', mk('digest', mk('alg', name), one(
            pre + data_for(mode, salt, pw, npw, count)))))
        n += 1
    return tm.slice_(tm.bseq(ds), tm.ZERO, const(need))


def check(c):
    sp = SPEC(c, 'algos')
    c.rule('key', 'the derived key is the RFC 4880 3.7.1 digest sequence cut '
           'to the key length of the cipher', 150)
    c.rule('specifier', 'the specifier is written and read back with the '
           'same type, hash, salt and count', 40)

    def drive(rule, key, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, key, a.value, want, a.where)
        c.guard(rule, key, go)

    salt = F('salt', 8)
    lens = [0, 1, 7, 8, 9, 40, 120]
    for h in sorted(HASH):
        for algo in sorted(KEYLEN):
            if c.tier == 'quick' and algo not in (1, 8, 9) and h != 2:
                continue
            for npw in (0, 12):
                pw = F('passphrase', npw)
                drive('key', 'simple,hash %d,cipher %d,%d' % (h, algo, npw),
                      'to_key', [const(algo), tm.bseq([('k', bytes([0, h]))]),
                                 pw], expected(h, algo, 0, None, pw, npw, 0))
                drive('key', 'salted,hash %d,cipher %d,%d' % (h, algo, npw),
                      'to_key', [const(algo), tm.bseq([
                          ('k', bytes([1, h])), ('c', salt)]), pw],
                      expected(h, algo, 1, salt, pw, npw, 0))
            npw = 248
            pw = F('passphrase', npw)
            drive('key', 'iterated,hash %d,cipher %d' % (h, algo), 'to_key',
                  [const(algo), tm.bseq([('k', bytes([3, h])), ('c', salt),
                                         ('k', b'\0')]), pw],
                  expected(h, algo, 3, salt, pw, npw, 1024))
    # repetition counts: shorter than, equal to and longer than one block
    cases = [(0, n) for n in (0, 1, 9, 24, 120, 503, 504, 505, 1015, 1016,
                              1017, 2000)]
    cases += [(cc, 5000) for cc in (0x01, 0x0f, 0x10, 0x2f, 0x41, 0x60)]
    cases += [(cc, 3000) for cc in (0x20, 0x34, 0x60, 0x7f)]
    cases += [(0x80, 200000), (0xff, 1 << 22), (0x96, 100000)]
    for cc, npw in cases:
        pw = F('passphrase', npw)
        cnt = (16 + (cc & 15)) << ((cc >> 4) + 6)
        for h, algo in ((2, 9), (8, 9), (1, 8)):
            if c.tier == 'quick' and (h, algo) != (2, 9) and npw > 3000:
                continue
            drive('key', 'count code %02x,passphrase of %d octets,hash %d' % (
                cc, npw, h), 'to_key', [const(algo), tm.bseq([
                    ('k', bytes([3, h])), ('c', salt), ('k', bytes([cc]))]),
                pw], expected(h, algo, 3, salt, pw, npw, cnt))
    for n in (100, 136, 5, 1000):
        pw = F('passphrase', 24)
        drive('key', 'count %d' % n, 'iterated_key', [
            const(2), const(9), salt, const(n), pw],
            expected(2, 9, 3, salt, pw, 24, n))

    for h in sorted(HASH) + [100]:
        w = tm.bseq([('k', bytes([0, h]))])
        drive('specifier', 'read simple,%d' % h, 's2k_bytes', [const(9), w],
              mk('tuple', const(2), w))
        drive('specifier', 'write simple,%d' % h, 'simple',
              [const(h), const(9)], w)
        w = tm.bseq([('k', bytes([1, h])), ('c', salt)])
        drive('specifier', 'read salted,%d' % h, 's2k_bytes', [const(9), w],
              mk('tuple', const(10), w))
        drive('specifier', 'write salted,%d' % h, 'salted',
              [const(h), const(9), salt], w)
    for cc in range(0, 256, 1 if c.tier == 'thorough' else 5):
        w = tm.bseq([('k', bytes([3, 8])), ('c', salt), ('k', bytes([cc]))])
        cnt = (16 + (cc & 15)) << ((cc >> 4) + 6)
        drive('specifier', 'read iterated,%02x' % cc, 's2k_bytes',
              [const(9), w], mk('tuple', const(11), w))
        drive('specifier', 'write iterated,%02x' % cc, 'iterated',
              [const(8), const(9), salt, const(cnt)], w)
