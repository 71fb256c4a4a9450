"""C17: integer, MPI, hexadecimal and count codecs."""
from .. import terms as tm
from ..terms import const, sym
from .common import Run, SPEC

U = 'pgp.utils'


def check(c):
    spec = SPEC(c, 'codecs')
    c.rule('fixed-width', 'the value graph of each fixed-width writer/reader '
           'equals the big-endian reference graph for every integer, octet '
           'string and offset', 7)
    c.rule('be-read', 'bytes_to_int of k octets is their big-endian value, '
           'for each k analysed', 20)
    c.rule('mpi', 'an MPI of each bit length is written as its exact '
           'two-octet bit length and ceil(n/8) big-endian octets, and read '
           'back as the same value with the offset after it', 60)
    c.rule('count', 'every one of the 256 count octets decodes to its '
           'RFC 4880 count, that count encodes to the same octet, and a '
           'count with no octet is rejected', 256)
    c.rule('hex', 'hexadecimal identifiers map octet for octet and back', 8)
    n = sym('n', 'int')
    o = sym('offset', 'int')
    d = sym('data', 'bytes')

    def same(rule, key, f, args, sf=None, sargs=None, facts=()):
        def go():
            a = Run(c, U, f, args, facts=facts)
            b = Run(c, spec, sf or f, sargs or args, facts=facts)
            c.same(rule, key, a.value, b.value, a.where, facts)
        c.guard(rule, key, go)

    for f in ('int_to_2byte', 'int_to_4byte', 'int_to_8byte'):
        same('fixed-width', f, f, [n])
    for f in ('byte_to_int', 'short_to_int', 'long_to_int', 'mpi_length'):
        same('fixed-width', f, f, [d, o],
             facts=(tm.cmp_('>=', o, tm.ZERO),))

    for k in list(range(1, 33)) + [64, 128, 129]:
        def go():
            a = Run(c, U, 'bytes_to_int', [d, o, const(k)])
            c.same('be-read', 'bytes_to_int/%d' % k, a.value,
                   tm.rd(d, o, k), a.where)
        c.guard('be-read', 'bytes_to_int/%d' % k, go)

    sizes = list(range(0, 66)) + [127, 128, 160, 255, 256, 257, 511, 512,
                                  1023, 1024, 1025, 2047, 2048, 2049]
    if c.tier == 'thorough':
        sizes = sorted(set(sizes) | set(range(66, 520)) |
                       set(range(1016, 4200, 8)) | set(range(1017, 4200, 61)))
    for k in sizes:
        nb = (k + 7) // 8
        hdr = ('k', bytes([k >> 8, k & 255]))
        x = tm.exactint('i', k) if k else tm.ZERO
        octets = tm.bseq([hdr, ('be', nb, x)]) if nb else tm.bseq([hdr])

        def w():
            a = Run(c, U, 'int_to_mpi', [x])
            c.same('mpi', 'int_to_mpi/%d' % k, a.value, octets, a.where)
            for e in a.raises:
                c.ob('mpi', 'int_to_mpi/%d/raise' % k, False,
                     'a %d-bit integer is refused' % k, c.exit_where(e))
        c.guard('mpi', 'int_to_mpi/%d' % k, w)

        def b():
            a = Run(c, U, 'int_to_bytes', [x])
            c.same('mpi', 'int_to_bytes/%d' % k, a.value,
                   tm.bseq([('be', nb, x)] if nb else []), a.where)
        c.guard('mpi', 'int_to_bytes/%d' % k, b)

        def r():
            body = tm.fixed('rest', 'bytes', nb + 3)
            pre = tm.fixed('pre', 'bytes', 5)
            a = Run(c, U, 'mpi_to_int', [
                tm.bseq([('c', pre), hdr, ('c', body)]), const(5)])
            want = tm.mk('tuple', tm.rd(body, tm.ZERO, nb) if nb else tm.ZERO,
                         const(7 + nb))
            c.same('mpi', 'mpi_to_int/%d' % k, a.value, want, a.where)
        c.guard('mpi', 'mpi_to_int/%d' % k, r)
    # negative integers have no MPI
    def neg():
        a = Run(c, U, 'int_to_mpi', [const(-1)])
        c.ob('mpi', 'int_to_mpi/negative', a.r.state is None,
             'a negative integer is written as an MPI', a.where)
    c.guard('mpi', 'int_to_mpi/negative', neg)

    # RFC 4880 3.7.1.3
    valid = set()
    for code in range(256):
        valid.add((16 + (code & 15)) << ((code >> 4) + 6))
    for code in range(256):
        cnt = (16 + (code & 15)) << ((code >> 4) + 6)

        def dec():
            a = Run(c, U, 's2k_count_to_int', [const(code)])
            c.same('count', 'decode/%d' % code, a.value, const(cnt), a.where)
            b = Run(c, U, 'int_to_s2k_count', [const(cnt)])
            v = b.value
            if v is not None and tm.type_of(v) == 'int':
                v = tm.bseq([('b', v)])
            c.same('count', 'encode/%d' % code, v, const(bytes([code])),
                   b.where)
        c.guard('count', 'code/%d' % code, dec)
        if (code & 3) == 0 or c.tier == 'thorough':
            for bad in (cnt - 1, cnt + 1):
                if bad in valid:
                    continue

                def rej():
                    b = Run(c, U, 'int_to_s2k_count', [const(bad)])
                    c.ob('count', 'reject/%d' % bad, b.r.state is None,
                         'the inexpressible count %d is accepted' % bad,
                         b.where)
                c.guard('count', 'reject/%d' % bad, rej)

    # hexadecimal
    for k in (1, 2, 4, 8, 20):
        h = tm.fixed('h', 'str', 2 * k)
        bs = tm.fixed('b', 'bytes', k)

        def hx():
            from ..interp import hexoctet, unhex
            want = tm.bseq([('b', unhex(tm.slice_(h, const(2 * i),
                                                  const(2 * i + 2))))
                            for i in range(k)])
            a = Run(c, U, 'hex_to_bytes', [h])
            c.same('hex', 'hex_to_bytes/%d' % k, a.value, want, a.where)
            a = Run(c, U, 'hex_to_bytes', [h, const(k)])
            c.same('hex', 'hex_to_bytes/%d,expected' % k, a.value, want,
                   a.where)
            s = const('')
            for i in range(k):
                s = tm.strcat(s, hexoctet(tm.item(bs, const(i))))
            a = Run(c, U, 'bytearray_to_hex', [bs])
            c.same('hex', 'bytearray_to_hex/%d' % k, a.value, s, a.where)
            big = tm.bseq([('c', tm.fixed('p', 'bytes', 3)), ('c', bs),
                           ('c', tm.fixed('q', 'bytes', 2))])
            a = Run(c, U, 'bytearray_to_hex', [big, const(3), const(2 * k)])
            c.same('hex', 'bytearray_to_hex/%d,offset' % k, a.value, s,
                   a.where)
            a = Run(c, U, 'int_to_hex', [n, const(2 * k)],
                    facts=(tm.cmp_('>=', n, tm.ZERO),))
            w = tm.mk('fmt', const('{:0%dX}' % (2 * k)), n)
            c.same('hex', 'int_to_hex/%d' % k, a.value,
                   tm.slice_(w, const(-2 * k), tm.NONE), a.where,
                   (tm.cmp_('>=', n, tm.ZERO),))
        c.guard('hex', 'hex/%d' % k, hx)
