"""C15: signature and user attribute subpackets."""
from .. import terms as tm
from ..terms import const, sym
from .common import Run, SPEC
from .c12 import sub_len

NAMES = {
    2: 'CreationTime', 3: 'ExpirationSeconds', 4: 'Exportable', 5: 'Trust',
    6: 'RegularExpression', 7: 'Revocable', 9: 'KeyExpirationTime',
    10: 'AdditionalRecipientRequest', 11: 'PreferredSymmetricAlgorithms',
    12: 'RevocationKey', 16: 'Issuer', 20: 'Notation',
    21: 'PreferredHashAlgorithms', 22: 'PreferredCompressionAlgorithms',
    23: 'KeyServerPreferences', 24: 'PreferredKeyServer',
    25: 'PrimaryUserID', 26: 'PolicyURI', 27: 'KeyFlags', 28: 'UserID',
    29: 'RevocationReason', 30: 'Features', 31: 'Target',
    32: 'EmbeddedSignature'}


def octets(name, n):
    return ('c', tm.fixed(name, 'bytes', n))


def plen(parts):
    n = 0
    for p in parts:
        if p[0] == 'k':
            n += len(p[1])
        elif p[0] == 'b':
            n += 1
        elif p[0] == 'be':
            n += p[1]
        else:
            n += tm.cval(tm.length(p[1]))
    return n


def wrap(type_, critical, parts):
    n = plen(parts) + 1
    tag = type_ + (128 if critical else 0)
    return [('k', sub_len(n) + bytes([tag]))] + list(parts)


def byte(t, i):
    return tm.rd(t, const(i), 1)


def shapes(tier):
    """(type, label, content parts)."""
    out = []

    def add(ty, label, *parts):
        out.append((ty, label, [p for p in parts]))
    big = [1, 2, 5, 189, 190, 191, 192, 300, 8382, 8383, 8384]
    if tier == 'thorough':
        big += list(range(6, 189, 7)) + [1000, 5000, 65535, 70000]
    for ty in (2, 3, 9):
        add(ty, 'time', octets('t', 4))
    for ty in (4, 7, 25):
        for v in (0, 1):
            add(ty, 'value%d' % v, ('k', bytes([v])))
    add(5, 'depth,amount', octets('d', 2))
    for n in big:
        add(6, 'len%d' % n, octets('p', n), ('k', b'\0'))
        add(24, 'len%d' % n, octets('u', n))
        add(26, 'len%d' % n, octets('u', n))
        add(28, 'len%d' % n, octets('u', n))
        add(29, 'len%d' % n, octets('c', 1), octets('u', n))
    add(28, 'empty')
    add(29, 'no text', octets('c', 1))
    add(6, 'empty pattern', ('k', b'\0'))
    for v in (0, 0x80, 0x41):
        add(10, 'class%x' % v, ('k', bytes([v])), octets('r', 21))
    for ty in (11, 21, 22):
        for n in (0, 1, 2, 3, 4, 7, 9):
            add(ty, '%d algorithms' % n, *([octets('a', n)] if n else []))
    for v in (0x80, 0xc0, 0x81, 0xff):
        add(12, 'class%x' % v, ('k', bytes([v])), octets('r', 21))
    add(16, 'key id', octets('k', 8))
    for hum in (0, 0x80):
        for name in (b'a@b', b'name@example.com', b'x', b'a@b@c', b'@', b''):
            for n in (0, 1, 5, 300):
                if n in (0, 300) and len(name) != 3:
                    continue
                add(20, 'flags%x,%r,%d' % (hum, name, n), ('k',
                    bytes([hum, 0, 0, 0, 0, len(name)]) +
                    n.to_bytes(2, 'big') + name),
                    *([octets('v', n)] if n else []))
    for ty in (23, 27, 30):
        for n in (2, 4):
            for v in (0, 1, 0x80, 0x2f, 0xff):
                add(ty, '%02x, %d octets' % (v, n), ('k', bytes([v])),
                    octets('f', n - 1))
        for v in range(256):
            add(ty, 'value%02x' % v, ('k', bytes([v])))
    for alg, n in ((1, 16), (2, 20), (3, 20), (8, 32), (9, 48), (10, 64),
                   (11, 28)):
        add(31, 'hash%d' % alg, octets('p', 1), ('k', bytes([alg])),
            octets('h', n))
    add(31, 'hash99', octets('p', 1), ('k', bytes([99])), octets('h', 24))
    for ty in [1, 8, 13, 14, 15, 17, 18, 19] + list(range(33, 128)):
        add(ty, 'unknown', octets('x', 5))
        if ty in (8, 33, 100, 110, 127):
            add(ty, 'unknown, empty')
            add(ty, 'unknown, long', octets('x', 500))
    # embedded: version 4 with and without subpackets; version 3
    mpi = ('k', b'\0\x20\x80\x01\x02\x03')
    add(32, 'v4 rsa', ('k', b'\4\x19\1\2' + b'\0\x06\5\2'), octets('t', 4),
        ('k', b'\0\x0a\x09\x10'), octets('i', 8), octets('h', 2), mpi)
    add(32, 'v4 dsa', ('k', b'\4\x19\x11\x08' + b'\0\0\0\0'),
        octets('h', 2), mpi, mpi)
    add(32, 'v3 rsa', ('k', b'\3\5\0'), octets('t', 4), octets('i', 8),
        ('k', b'\1\2'), octets('h', 2), mpi)
    return out


def check(c):
    c.maxrec = 3
    sp = SPEC(c, 'subpkt')
    c.rule('roundtrip', 'a subpacket of each registered and unregistered '
           'type, content shape and critical flag parses to an object whose '
           'bytes are the same octets, and the offset moves past it '
           '(value graph equality for all contents of the shape)', 250)
    c.rule('fields', 'each attribute of a parsed subpacket is the octet, '
           'integer, bit or text RFC 4880 5.2.3 assigns to it', 40)
    c.rule('writer', 'a subpacket built from attribute values is written '
           'with the RFC 4880 5.2.3 layout', 20)
    for ty, label, parts in shapes(c.tier):
        for critical in (False, True):
            w = wrap(ty, critical, parts)
            key = '%s/%s%s' % (NAMES.get(ty, ty), label,
                               '/critical' if critical else '')
            data = tm.bseq(w)

            def go():
                a = Run(c, sp, 'sig_roundtrip', [data])
                c.same('roundtrip', key, a.value, tm.mk(
                    'tuple', const(plen(w)), data), a.where)
            c.guard('roundtrip', key, go)
            if len(parts) and plen(parts) > 6 and not critical:
                def at():
                    d = tm.bseq([octets('before', 9)] + w +
                                [octets('after', 3)])
                    a = Run(c, sp, 'sig_roundtrip_at', [d, const(9)])
                    c.same('roundtrip', key + '/offset', a.value, tm.mk(
                        'tuple', const(9 + plen(w)), data), a.where)
                c.guard('roundtrip', key + '/offset', at)

    # every form of the length of a subpacket
    for fn, tag in (('sig_roundtrip', 0x65), ('sig_roundtrip', 0xe6),
                    ('sig_roundtrip', 2), ('attr_roundtrip', 0x64),
                    ('attr_roundtrip', 1)):
        for n in (1, 5, 40, 190, 191, 192, 300, 8382, 8383, 8384, 10000,
                  16318):
            if tag == 2 and n != 5:
                continue
            forms = [('5', b'\xff' + n.to_bytes(4, 'big'))]
            if n < 192:
                forms.append(('1', bytes([n])))
            else:
                forms.append(('2', bytes([((n - 192) >> 8) + 192,
                                          (n - 192) & 255])))
            for how, head in forms:
                if tag == 1 and n < 40:
                    continue
                img = bytes([16, 0, 1, 1]) + bytes(12) if tag == 1 else b''
                w = [('k', head + bytes([tag]) + img)]
                if n - 1 - len(img):
                    w.append(octets('x', n - 1 - len(img)))
                w = tm.bseq(w)
                key = '%s %x,%d octets,%s-octet length' % (
                    fn[:4].strip('_'), tag, n, how)

                def go():
                    a = Run(c, sp, fn, [w])
                    c.same('roundtrip', key, a.value, tm.mk(
                        'tuple', tm.length(w), w), a.where)
                c.guard('roundtrip', key, go)

    F = lambda n, k: tm.fixed(n, 'bytes', k)
    yes, no = const(True), const(False)

    def drive(key, fn, args, want, setup=None):
        def go():
            a = Run(c, sp, fn, args, setup=setup)
            c.same('fields', key, a.value, want, a.where)
        c.guard('fields', key, go)

    def fld(ty, label, parts, names, want):
        w = tm.bseq(wrap(ty, False, parts))
        drive('%s.%s/%s' % (NAMES[ty], '+'.join(names), label), 'fields',
              [w, tm.mk('tuple', *[const(n) for n in names])],
              tm.mk('tuple', *want))

    def flag(ty, label, parts, names, want):
        w = tm.bseq(wrap(ty, False, parts))
        drive('%s.%s/%s' % (NAMES[ty], '+'.join(names), label), 'flags',
              [w, tm.mk('tuple', *[const(n) for n in names])],
              tm.mk('tuple', *[const(bool(x)) for x in want]))
    t4, o1, o2, o8, o20 = F('t', 4), F('a', 1), F('b', 2), F('k', 8), F('r', 20)
    for ty in (2, 3, 9):
        fld(ty, 'time', [('c', t4)], ['time'], [tm.rd(t4, tm.ZERO, 4)])
    for ty, n in ((4, 'exportable'), (7, 'revocable'), (25, 'primary')):
        for v in (0, 1):
            flag(ty, str(v), [('k', bytes([v]))], [n], [v])
    fld(5, 'trust', [('c', o2)], ['depth', 'amount'],
        [byte(o2, 0), byte(o2, 1)])
    from ..interp import hexoctet

    def hexterm(t, n):
        s = const('')
        for i in range(n):
            s = tm.strcat(s, hexoctet(tm.item(t, const(i))))
        return s
    fld(16, 'key id', [('c', o8)], ['key_id'], [hexterm(o8, 8)])
    for v in (0x80, 0xc0):
        fld(12, '%02x' % v, [('k', bytes([v])), ('c', o1), ('c', o20)],
            ['public_key_algorithm', 'fingerprint'],
            [byte(o1, 0), hexterm(o20, 20)])
        flag(12, '%02x' % v, [('k', bytes([v])), ('c', o1), ('c', o20)],
             ['sensitive'], [v & 0x40])
    for v in (0, 0x80):
        fld(10, '%02x' % v, [('k', bytes([v])), ('c', o1), ('c', o20)],
            ['public_key_algorithm', 'fingerprint'],
            [byte(o1, 0), hexterm(o20, 20)])
        flag(10, '%02x' % v, [('k', bytes([v])), ('c', o1), ('c', o20)],
             ['strong_request'], [v])
    for ty, nm in ((24, 'uri'), (26, 'uri'), (28, 'user_id')):
        u = F('u', 40)
        drive('%s.%s' % (NAMES[ty], nm), 'text', [
            tm.bseq(wrap(ty, False, [('c', u)])), const(nm)], u)
    u = F('u', 40)
    drive('RegularExpression.pattern', 'ascii', [
        tm.bseq(wrap(6, False, [('c', u), ('k', b'\0')])),
        const('pattern')], u)
    drive('RevocationReason.revocation_reason', 'text', [
        tm.bseq(wrap(29, False, [('c', o1), ('c', u)])),
        const('revocation_reason')], u)
    fld(29, 'code', [('c', o1), ('c', u)], ['revocation_code'],
        [byte(o1, 0)])
    for ty in (11, 21, 22):
        for n in (0, 1, 3, 6):
            l = F('l', n)
            drive('%s/%d' % (NAMES[ty], n), 'listed', [tm.bseq(wrap(
                ty, False, [('c', l)] if n else []))],
                l if n else const(b''))
    bits = (('may_certify_others', 1), ('may_sign_data', 2),
            ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
            ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
            ('may_have_multiple_owners', 128))
    for v in [0, 255] + [1 << i for i in range(8)] + [255 ^ 1 << i
                                                      for i in range(8)]:
        for tail in (0, 3):
            parts = [('k', bytes([v]))] + ([octets('z', tail)] if tail else [])
            lab = '%02x%s' % (v, '+%d' % tail if tail else '')
            flag(27, lab, parts, [b[0] for b in bits],
                 [v & b[1] for b in bits])
            flag(30, lab, parts, ['supports_modification_detection'], [v & 1])
            flag(23, lab, parts, ['no_modify'], [v & 0x80])
    for alg, n in ((1, 16), (2, 20), (8, 32), (10, 64), (99, 24)):
        h = F('h', n)
        fld(31, 'hash%d' % alg, [('c', o1), ('k', bytes([alg])), ('c', h)],
            ['public_key_algorithm', 'hash_algorithm', 'hash'],
            [byte(o1, 0), const(alg), hexterm(h, n)])
    v5 = F('v', 5)
    for hum in (0, 0x80):
        for name in (b'a@b', b'x', b'a@b@c'):
            nm, at, ns = name.decode().partition('@')
            drive('Notation/%02x,%s' % (hum, name.decode()), 'notation', [
                tm.bseq(wrap(20, False, [
                    ('k', bytes([hum, 0, 0, 0, 0, len(name), 0, 5]) + name),
                    ('c', v5)]))],
                tm.mk('tuple', const(nm), const(ns if at else None),
                      const(bool(hum)), v5))
    for ty, label, parts in shapes('quick'):
        if label.startswith('value') and label not in ('value0', 'value1',
                                                       'value80'):
            continue
        for critical in (False, True):
            drive('kind/%s/%s/%s' % (NAMES.get(ty, ty), label, critical),
                  'kinds', [tm.bseq(wrap(ty, critical, parts))],
                  tm.mk('tuple', const(ty), const(critical)))
    inner = tm.bseq([('k', b'\4\x19\x11\x08' + b'\0\0\0\0'), octets('h', 2),
                     ('k', b'\0\x20\x80\x01\x02\x03')])
    drive('EmbeddedSignature.signature', 'embedded', [tm.bseq(
        wrap(32, False, [('c', inner)]))], inner)

    # writers
    def wr(key, fn, args, want, facts=()):
        def go():
            a = Run(c, sp, fn, args, facts=facts)
            c.same('writer', key, a.value, want, a.where, facts)
        c.guard('writer', key, go)

    def wspec(key, fn, args, sfn, sargs, facts=()):
        def go():
            a = Run(c, sp, fn, args, facts=facts)
            b = Run(c, sp, sfn, sargs, facts=facts)
            c.same('writer', key, a.value, b.value, a.where, facts)
        c.guard('writer', key, go)
    n = sym('n', 'int')
    m = sym('m', 'int')
    q32 = (tm.cmp_('>=', n, tm.ZERO), tm.cmp_('<=', n, const(2 ** 32 - 1)))
    q8 = (tm.cmp_('>=', n, tm.ZERO), tm.cmp_('<=', n, const(255)),
          tm.cmp_('>=', m, tm.ZERO), tm.cmp_('<=', m, const(255)))
    for cr in (yes, no):
        crit = bool(tm.cval(cr))
        sfx = '/critical' if crit else ''
        for fn, ty in (('w_creation', 2), ('w_expiration', 3),
                       ('w_keyexpiration', 9)):
            wspec(NAMES[ty] + sfx, fn, [cr, n], 's_be',
                  [const(ty), cr, const(4), n], q32)
        for fn, ty in (('w_exportable', 4), ('w_revocable', 7),
                       ('w_primary', 25)):
            for v in (True, False):
                wspec('%s/%s%s' % (NAMES[ty], v, sfx), fn, [cr, const(v)],
                      's_bool', [const(ty), cr, const(v)])
        wspec('Trust' + sfx, 'w_trust', [cr, n, m], 's_two',
              [const(5), cr, n, m], q8)
        wr('Issuer' + sfx, 'w_issuer', [cr, hexterm(o8, 8)],
           tm.bseq(wrap(16, crit, [('c', o8)])))
        for sens in (True, False):
            wr('RevocationKey/%s%s' % (sens, sfx), 'w_revkey',
               [cr, hexterm(o20, 20), const(17), const(sens)],
               tm.bseq(wrap(12, crit, [('k', bytes([
                   0xc0 if sens else 0x80, 17])), ('c', o20)])))
            wr('RevocationKey, octets/%s%s' % (sens, sfx), 'w_revkey',
               [cr, o20, const(17), const(sens)],
               tm.bseq(wrap(12, crit, [('k', bytes([
                   0xc0 if sens else 0x80, 17])), ('c', o20)])))
        for v in (True, False):
            wr('Features/%s%s' % (v, sfx), 'w_features', [cr, const(v)],
               const(bytes([2, 30 + 128 * crit, 1 if v else 0])))
            wr('KeyServerPreferences/%s%s' % (v, sfx), 'w_keyserver',
               [cr, const(v)],
               const(bytes([2, 23 + 128 * crit, 0x80 if v else 0])))
        order = ('may_certify_others', 'may_sign_data', 'may_encrypt_comms',
                 'may_encrypt_storage', 'may_be_used_for_auth',
                 'may_have_been_split', 'may_have_multiple_owners')
        bit = dict(bits)
        for i in range(-1, 8):
            on = [i == j or i == 7 for j in range(7)]
            wr('KeyFlags/%d%s' % (i, sfx), 'w_keyflags',
               [cr] + [const(x) for x in on],
               const(bytes([2, 27 + 128 * crit, sum(
                   bit[order[j]] for j in range(7) if on[j])])))
        for alg, k in ((2, 20), (8, 32), (10, 64)):
            h = F('h', k)
            wr('Target/%d%s' % (alg, sfx), 'w_target',
               [cr, const(1), const(alg), hexterm(h, k)],
               tm.bseq(wrap(31, crit, [('k', bytes([1, alg])), ('c', h)])))
        txt = const('h\xe9llo')
        enc = 'h\xe9llo'.encode('utf8')
        wr('RevocationReason' + sfx, 'w_reason', [cr, const(3), txt],
           tm.bseq(wrap(29, crit, [('k', b'\3' + enc)])))
        wr('PolicyURI' + sfx, 'w_uri', [cr, txt],
           tm.bseq(wrap(26, crit, [('k', enc)])))
        wr('PreferredKeyServer' + sfx, 'w_keyserveruri', [cr, txt],
           tm.bseq(wrap(24, crit, [('k', enc)])))
        wr('RegularExpression' + sfx, 'w_regex', [cr, const('<[^>]+>$')],
           tm.bseq(wrap(6, crit, [('k', b'<[^>]+>$\0')])))
        for ns in (None, 'example.com'):
            full = 'nam\xe9' + ('@' + ns if ns else '')
            fb = full.encode('utf8')
            for human, val, raw in ((True, txt, [('k', enc)]),
                                    (False, v5, [('c', v5)])):
                wr('Notation/%s,%s%s' % (ns, human, sfx), 'w_notation',
                   [cr, const('nam\xe9'), const(ns), const(human), val],
                   tm.bseq(wrap(20, crit, [('k', bytes([
                       0x80 if human else 0, 0, 0, 0, 0, len(fb), 0,
                       plen(raw)]) + fb)] + raw)))

    # user attributes
    c.rule('attribute', 'a user attribute subpacket of each type and size '
           'is written back octet for octet, and an image keeps its version, '
           'header length, encoding and data', 20)

    def at(key, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same('attribute', key, a.value, want, a.where)
        c.guard('attribute', key, go)
    img = lambda fmt, n: [('k', bytes([16, 0, 1, fmt]) + bytes(12))] + (
        [octets('img', n)] if n else [])
    for fmt in (0, 1, 2, 100, 255):
        for n in (0, 1, 174, 175, 176, 400, 8367, 8368, 9000):
            w = tm.bseq(wrap(1, False, img(fmt, n)))
            at('image/%d,%d' % (fmt, n), 'attr_roundtrip', [w],
               tm.mk('tuple', tm.length(w), w))
        w = tm.bseq(wrap(1, False, img(fmt, 60)))
        at('image fields/%d' % fmt, 'attr_fields', [w, tm.mk(
            'tuple', *[const(x) for x in ('header_version', 'header_length',
                                          'image_format')])],
           tm.mk('tuple', const(1), const(16), const(fmt)))
        at('image data/%d' % fmt, 'attr_data', [w], F('img', 60))
        at('image writer/%d' % fmt, 'write_image', [
            const(1), const(16), const(fmt), F('img', 60)], w)
    for ty in (0, 2, 3, 100, 127, 255):
        for n in (0, 1, 30, 200, 9000):
            w = tm.bseq([('k', sub_len(n + 1) + bytes([ty]))] +
                        ([octets('x', n)] if n else []))
            at('unknown %d/%d' % (ty, n), 'attr_roundtrip', [w],
               tm.mk('tuple', tm.length(w), w))
