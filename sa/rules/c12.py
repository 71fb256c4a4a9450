"""C12: packet and subpacket framing."""
from .. import terms as tm
from ..terms import const, sym
from .common import Run, SPEC

U = 'pgp.utils'
MAXLEN = 0xffffffff


def hdr_new(type_, n):
    if n < 192:
        ln = bytes([n])
    elif n < 8384:
        ln = bytes([((n - 192) >> 8) + 192, (n - 192) & 255])
    else:
        ln = bytes([255]) + n.to_bytes(4, 'big')
    return bytes([0xc0 | type_]) + ln


def hdr_old(type_, n, lt):
    return (bytes([0x80 | type_ << 2 | lt]) +
            n.to_bytes((1, 2, 4)[lt], 'big') if lt < 3 else
            bytes([0x80 | type_ << 2 | 3]))


def sub_len(n):
    return hdr_new(0, n)[1:]


def check(c):
    cod = SPEC(c, 'codecs')
    fr = SPEC(c, 'frame')
    c.rule('length-writer', 'the length octets written for every length are '
           'the RFC 4880 4.2 encoding (value graph equality)', 2)
    c.rule('length-reader', 'every length reader computes the RFC 4880 '
           'length and consumes exactly its octets, for all octets and '
           'offsets (value graph equality)', 4)
    c.rule('packet-writer', 'bytes(packet) is the header of the packet\'s '
           'own type and format, the RFC length octets and the whole body, '
           'for every body length up to 2^32-1 (value graph equality)', 60)
    c.rule('packet-reader', 'a packet of each length class is read back with '
           'its own format, type and body and nothing left over, in memory '
           'and from a stream', 30)
    c.rule('partial', 'partial bodies are concatenated in order, in memory '
           'and from a stream', 8)
    c.rule('partial-writer', 'bodies over 2^32-1 octets are written as '
           'partial chunks, each with its length octet, only for data '
           'packets', 2)
    c.rule('subpacket-writer', 'bytes(subpacket) is the RFC 4880 5.2.3.1 '
           'length, the type octet and the content', 16)
    c.rule('subpacket-reader', 'a subpacket of each length class is read '
           'back with its own type, critical flag and content', 20)
    n = sym('n', 'int')
    o = sym('offset', 'int')
    d = sym('data', 'bytes')
    rng = (tm.cmp_('>=', n, tm.ZERO), tm.cmp_('<=', n, const(MAXLEN)))
    pos = (tm.cmp_('>=', o, tm.ZERO),)

    def same(rule, key, mod, f, args, sf, sargs=None, facts=(), smod=None):
        def go():
            a = Run(c, mod, f, args, facts=facts)
            b = Run(c, smod or cod, sf, sargs or args, facts=facts)
            c.same(rule, key, a.value, b.value, a.where, facts)
        c.guard(rule, key, go)

    for partial in (False, True):
        same('length-writer', 'new_packet_length_to_bytes/%s' % partial, U,
             'new_packet_length_to_bytes', [n, const(partial)],
             'new_writer', [n], rng)
    same('length-writer', 'old_packet_length_to_bytes', fr,
         'old_length_octets', [n], 'spec_old_length_octets', [n], rng, fr)
    same('length-reader', 'new_packet_length', U, 'new_packet_length',
         [d, o], 'new_length', facts=pos)
    same('length-reader', 'subpacket_length', U, 'subpacket_length',
         [d, o], 'subpacket_len', facts=pos)
    for first in range(256):
        dd = tm.bseq([('k', bytes([first])), ('c', tm.fixed('d', 'bytes', 6))])
        same('length-reader', 'stream/%d' % first, fr, 'stream_length', [dd],
             'new_length', [dd, tm.ZERO])
        same('length-reader', 'memory/%d' % first, U, 'new_packet_length',
             [dd, tm.ZERO], 'new_length')
        same('length-reader', 'subpacket/%d' % first, U, 'subpacket_length',
             [dd, tm.ZERO], 'subpacket_len')
    for lt in range(3):
        dd = tm.bseq([('k', bytes([0x88 + lt])), ('c', d)])
        same('length-reader', 'old_packet_length/%d' % lt, U,
             'old_packet_length', [dd, tm.ZERO], 'old_length')

    # whole packets
    body = sym('body', 'bytes')
    small = (tm.cmp_('<=', tm.length(body), const(MAXLEN)),)
    for ty in range(64):
        same('packet-writer', 'new/%d' % ty, fr, 'write_packet',
             [const(True), const(ty), body], 'spec_write_new',
             [const(ty), body], small, fr)
    for ty in range(16):
        same('packet-writer', 'old/%d' % ty, fr, 'write_packet',
             [const(False), const(ty), body], 'spec_write_old',
             [const(ty), body], small, fr)

    sizes = [0, 1, 5, 191, 192, 193, 255, 256, 8383, 8384, 65535, 65536,
             70000]
    if c.tier == 'thorough':
        sizes = sorted(set(sizes) | set(range(0, 600)) |
                       set(range(600, 9000, 47)) |
                       {2 ** k + e for k in range(9, 25) for e in (-1, 0, 1)})
    pre = tm.fixed('pre', 'bytes', 7)
    rest = tm.fixed('rest', 'bytes', 4)

    def read(rule, key, hdr_parts, fmt, ty, content, total):
        want = tm.mk('tuple', const(total), const(bool(fmt)), const(ty), content)
        data = tm.bseq(hdr_parts + [('c', rest)])

        def mem():
            a = Run(c, fr, 'read_data', [data, tm.ZERO])
            c.same(rule, key + '/memory', a.value, want, a.where)

        def off():
            a = Run(c, fr, 'read_data', [
                tm.bseq([('c', pre)] + hdr_parts + [('c', rest)]), const(7)])
            c.same(rule, key + '/memory,offset', a.value,
                   tm.mk('tuple', const(total + 7), const(bool(fmt)), const(ty),
                         content), a.where)

        def stream():
            a = Run(c, fr, 'read_stream', [data])
            c.same(rule, key + '/stream', a.value, want, a.where)
        for g in (mem, off, stream):
            c.guard(rule, key, g)

    for k in sizes:
        b = tm.fixed('body', 'bytes', k) if k else const(b'')
        bp = [('c', b)] if k else []
        h = hdr_new(60, k)
        read('packet-reader', 'new/%d' % k, [('k', h)] + bp, 1, 60, b,
             len(h) + k)
        for lt in range(3):
            if k >= 256 ** (1, 2, 4)[lt]:
                continue
            if lt and k > 256 and lt == 2 and k < 60000:
                continue
            h = hdr_old(15, k, lt)
            read('packet-reader', 'old%d/%d' % (lt, k), [('k', h)] + bp, 0,
                 15, b, len(h) + k)
    for ty in list(range(20, 64)):
        b = tm.fixed('body', 'bytes', 3)
        read('packet-reader', 'new-type/%d' % ty,
             [('k', hdr_new(ty, 3)), ('c', b)], 1, ty, b, 5)

    # several packets one after another
    def many():
        parts, want = [], []
        for i, (fmt, ty, k) in enumerate([(1, 60, 3), (0, 15, 2), (1, 61, 200),
                                          (1, 62, 0), (0, 15, 300)]):
            b = tm.fixed('b%d' % i, 'bytes', k) if k else const(b'')
            parts += [('k', hdr_new(ty, k) if fmt else
                       hdr_old(ty, k, 0 if k < 256 else 1))]
            if k:
                parts += [('c', b)]
            want.append(tm.mk('tuple', const(bool(fmt)), const(ty), b))
        a = Run(c, fr, 'read_many', [tm.bseq(parts)])
        c.same('packet-reader', 'sequence', a.value, tm.mk('tuple', *want),
               a.where)
    c.guard('packet-reader', 'sequence', many)

    # partial bodies
    for name, chunks, last in [
            ('512+0', [9], 0), ('512+5', [9], 5), ('512+191', [9], 191),
            ('512+192', [9], 192), ('1+2+3', [0, 1], 3),
            ('512+1024+8384', [9, 10], 8384), ('1024+512+1', [10, 9], 1),
            ('2x512+700', [9, 9], 700), ('65536+3', [16], 3),
            ('2^20+2^24+1', [20, 24], 1), ('2^30+300', [30], 300)]:
        parts = [('k', bytes([0xc0 | 60]))]
        total = 1
        content = []
        for i, e in enumerate(chunks):
            b = tm.fixed('chunk%d' % i, 'bytes', 1 << e)
            parts += [('k', bytes([224 + e])), ('c', b)]
            content.append(('c', b))
            total += 1 + (1 << e)
        h = sub_len(last)
        parts.append(('k', h))
        total += len(h) + last
        if last:
            b = tm.fixed('last', 'bytes', last)
            parts.append(('c', b))
            content.append(('c', b))
        read('partial', name, parts, 1, 60, tm.bseq(content), total)

    # over 4 GiB
    def big(ty, data_packet):
        body = tm.fixed('body', 'bytes', MAXLEN + 6)
        a = Run(c, fr, 'write_packet', [const(True), const(ty), body])
        key = 'over-4GiB/%d' % ty
        if not data_packet:
            c.ob('partial-writer', key, a.r.state is None,
                 'a packet that is not a data packet is written with a '
                 'partial length', a.where)
            return
        want = []
        offs = 0
        tot = MAXLEN + 6
        rem = tot
        parts = [('k', bytes([0xc0 | ty]))]
        while rem > MAXLEN:
            parts += [('k', bytes([0xfe])), ('c', tm.slice_(
                body, const(offs), const(offs + (1 << 30))))]
            offs += 1 << 30
            rem -= 1 << 30
        parts += [('k', sub_len(rem)), ('c', tm.slice_(
            body, const(offs), const(tot)))]
        c.same('partial-writer', key, a.value, tm.bseq(parts), a.where)
    for ty, dp in ((8, True), (9, True), (11, True), (18, True), (2, False),
                   (13, False)):
        c.guard('partial-writer', 'over-4GiB/%d' % ty,
                lambda ty=ty, dp=dp: big(ty, dp))

    # subpackets
    cont = sym('content', 'bytes')
    sm = (tm.cmp_('<', tm.length(cont), const(MAXLEN)),)
    for ty in (0, 2, 11, 20, 33, 100, 127):
        for cr in (False, True):
            same('subpacket-writer', 'signature/%d/%s' % (ty, cr), fr,
                 'write_sig_subpacket', [const(ty), const(cr), cont],
                 'spec_sig_subpacket', facts=sm, smod=fr)
    for ty in (1, 2, 100, 255):
        same('subpacket-writer', 'attribute/%d' % ty, fr,
             'write_attr_subpacket', [const(ty), cont],
             'spec_attr_subpacket', facts=sm, smod=fr)
    ssizes = [0, 1, 5, 190, 191, 192, 5000, 8190, 8191, 8192, 8382, 8383,
              8384, 16318, 16319, 16320, 70000]
    if c.tier == 'thorough':
        ssizes = sorted(set(ssizes) | set(range(0, 400)) |
                        set(range(400, 17000, 53)))
    for k in ssizes:
        b = tm.fixed('content', 'bytes', k) if k else const(b'')
        bp = [('c', b)] if k else []
        encs = {sub_len(k + 1)}
        if 192 <= k + 1 <= 16319:
            encs.add(bytes([((k + 1 - 192) >> 8) + 192, (k + 1 - 192) & 255]))
        encs.add(b'\xff' + (k + 1).to_bytes(4, 'big'))
        for h in sorted(encs):
            for ty in (100, 0xe4):
                def sig():
                    a = Run(c, fr, 'read_sig_subpacket', [
                        tm.bseq([('c', pre), ('k', h + bytes([ty]))] + bp +
                                [('c', rest)]), const(7)])
                    c.same('subpacket-reader', 'signature/%d/%d/%d' % (
                        k, len(h), ty), a.value, tm.mk(
                            'tuple', const(8 + len(h) + k), const(ty & 0x7f),
                            const(bool(ty & 0x80)), b), a.where)
                c.guard('subpacket-reader', 'signature/%d' % k, sig)

            def attr():
                a = Run(c, fr, 'read_attr_subpacket', [
                    tm.bseq([('c', pre), ('k', h + b'\x64')] + bp +
                            [('c', rest)]), const(7)])
                c.same('subpacket-reader', 'attribute/%d/%d' % (k, len(h)),
                       a.value, tm.mk('tuple', const(8 + len(h) + k),
                                      const(100), b), a.where)
            c.guard('subpacket-reader', 'attribute/%d' % k, attr)
