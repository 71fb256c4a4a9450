"""C14: packet bodies, every kind and version."""
from .. import terms as tm
from ..terms import const
from .common import Run, SPEC
from .c12 import hdr_new, hdr_old
from .c15 import octets, plen, wrap

KINDS = {1: 'PKESK', 2: 'Signature', 3: 'SKESK', 4: 'OnePass', 5: 'SecretKey',
         6: 'PublicKey', 7: 'SecretSubkey', 8: 'Compressed', 9: 'Encrypted',
         10: 'Marker', 11: 'Literal', 12: 'Trust', 13: 'UserID',
         14: 'PublicSubkey', 16: 'OldComment', 17: 'UserAttribute',
         18: 'IntegrityProtected', 19: 'MDC', 61: 'GpgComment',
         63: 'GpgControl'}


def mpi(name, bits):
    """[parts], value"""
    x = tm.exactint(name, bits)
    return [('k', bits.to_bytes(2, 'big')), ('be', (bits + 7) // 8, x)], x


def F(n, k):
    return tm.fixed(n, 'bytes', k) if k else const(b'')


def by(t, i=0):
    return tm.rd(t, const(i), 1)


def key_material(algo, sizes):
    """[parts], {attribute: value}"""
    names = {1: ('modulus', 'exponent'), 2: ('modulus', 'exponent'),
             3: ('modulus', 'exponent'),
             16: ('prime', 'group_generator', 'key_value'),
             20: ('prime', 'group_generator', 'key_value'),
             17: ('prime', 'group_order', 'group_generator', 'key_value')}
    parts, vals = [], {}
    for n, k in zip(names[algo], sizes):
        p, x = mpi('mpi_' + n, k)
        parts += p
        vals[n] = x
    return parts, vals


ALL = ('modulus', 'exponent', 'prime', 'group_order', 'group_generator',
       'key_value')


def public(version, algo, sizes):
    """[parts], {attribute: expected}"""
    t = F('t', 4)
    parts = [('k', bytes([version])), ('c', t)]
    f = {'version': const(version), 'creation_time': tm.rd(t, tm.ZERO, 4),
         'public_key_algorithm': const(algo), 'expiration_days': const(None)}
    if version < 4:
        d = F('days', 2)
        parts.append(('c', d))
        f['expiration_days'] = tm.rd(d, tm.ZERO, 2)
    parts.append(('k', bytes([algo])))
    m, vals = key_material(algo, sizes)
    for n in ALL:
        f[n] = vals.get(n, const(None))
    return parts + m, f


SIZES = {1: [(1024, 17), (2047, 2), (1, 9), (513, 1)],
         2: [(1024, 17)], 3: [(1023, 17)],
         16: [(1024, 2, 1021), (1023, 160, 8)],
         20: [(1024, 3, 1024)],
         17: [(1024, 160, 1021, 1023), (2048, 256, 2041, 2000)]}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16,
         12: 16, 13: 16}


def bodies(tier):
    """(type, label, parts, {attribute: expected or ('octets'|'text', T)})"""
    out = []

    def add(ty, label, parts, f=None):
        out.append((ty, label, [p for p in parts], f or {}))

    # 1: public key encrypted session key
    for ver in (2, 3):
        for algo in (1, 2, 16):
            parts = [('k', bytes([ver, 0x9a])), ('c', F('keyid', 7)),
                     ('k', bytes([algo]))]
            esk = F('esk', 130)
            add(1, 'v%d,algorithm %d' % (ver, algo), parts + [('c', esk)], {
                'version': const(ver), 'public_key_algorithm': const(algo),
                'encrypted_session_key': ('octets', esk)})
    kid = bytes(range(0xa0, 0xa8))
    add(1, 'key id', [('k', b'\3' + kid + b'\1'), octets('esk', 66)],
        {'key_id': const(kid.hex().upper())})
    add(1, 'hidden recipient', [('k', b'\3' + bytes(8) + b'\1'),
                                octets('esk', 66)], {'key_id': const(None)})
    for i in range(8):
        kid = bytes(8 - i - 1) + b'\1' + bytes(i)
        add(1, 'key id %s' % kid.hex(), [('k', b'\3' + kid + b'\1'),
            octets('esk', 66)], {'key_id': const(kid.hex().upper())})

    # 2: signatures
    m1, x1 = mpi('s1', 1023)
    r1, y1 = mpi('r', 160)
    r2, y2 = mpi('s', 157)
    h2 = F('hash2', 2)
    for ver in (2, 3):
        for palgo, vals in ((1, m1), (17, r1 + r2)):
            for st in (0, 1, 0x10, 0x18, 0x40):
                t, k = F('t', 4), F('keyid', 8)
                add(2, 'v%d,type %02x,algorithm %d' % (ver, st, palgo),
                    [('k', bytes([ver, 5, st])), ('c', t), ('c', k),
                     ('k', bytes([palgo, 8])), ('c', h2)] + vals, {
                    'version': const(ver), 'signature_type': const(st),
                    'creation_time': tm.rd(t, tm.ZERO, 4),
                    'key_id': ('hex', k), 'public_key_algorithm':
                    const(palgo), 'hash_algorithm': const(8),
                    'hash2': ('octets', h2)})
    subs = [wrap(2, False, [octets('t2', 4)]), wrap(27, True, [('k', b'\3')]),
            wrap(11, False, [octets('a', 3)]), wrap(33, False, [
                octets('f', 21)]), wrap(100, True, [octets('x', 200)]),
            wrap(20, False, [('k', bytes([0x80, 0, 0, 0, 0, 3, 0, 4]) +
                              b'a@b'), octets('nv', 4)]),
            wrap(2, False, [octets('t3', 4)]),
            wrap(16, False, [octets('i8', 8)])]
    combos = [((), ()), ((0,), ()), ((0,), (7,)), ((), (7,)),
              ((0, 1, 2, 3, 4, 5), (7, 6)), ((5, 4, 3, 2, 1, 0), (7,)),
              ((0, 6), (7, 7)), ((1, 1, 2), (3, 4))]
    for palgo, vals in ((1, m1), (17, r1 + r2)):
        for hs, us in combos:
            a = [p for i in hs for p in subs[i]]
            b = [p for i in us for p in subs[i]]
            st = 0x13
            add(2, 'v4,algorithm %d,%s/%s' % (
                palgo, ''.join(map(str, hs)), ''.join(map(str, us))),
                [('k', bytes([4, st, palgo, 10]) + plen(a).to_bytes(2, 'big'))]
                + a + [('k', plen(b).to_bytes(2, 'big'))] + b +
                [('c', h2)] + vals, {
                    'version': const(4), 'signature_type': const(st),
                    'public_key_algorithm': const(palgo),
                    'hash_algorithm': const(10), 'hash2': ('octets', h2),
                    '#subpackets': tm.mk('tuple', tm.mk(
                        'tuple', *[tm.bseq(subs[i]) for i in hs]),
                        tm.mk('tuple', *[tm.bseq(subs[i]) for i in us]))})

    for lab, vals in (('zero', [('k', b'\0\0')]), ('zero second', r1 + [
            ('k', b'\0\0')]), ('zero first', [('k', b'\0\0')] + r2)):
        add(2, 'v4,number %s' % lab, [('k', b'\4\0\x11\2\0\0\0\0'),
                                      ('c', h2)] + vals, {
            'version': const(4), 'hash2': ('octets', h2)})
        add(2, 'v3,number %s' % lab, [
            ('k', b'\3\5\0'), ('c', F('t', 4)), ('c', F('keyid', 8)),
            ('k', b'\x11\2'), ('c', h2)] + vals, {
            'version': const(3), 'hash2': ('octets', h2)})

    # 3: symmetric key encrypted session key
    salt = F('salt', 8)
    for alg in (1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13):
        for esk in (0, 17, 33):
            e = [octets('esk', esk)] if esk else []
            f = {'version': const(4), 'symmetric_algorithm': const(alg),
                 'encrypted_session_key': ('octets', F('esk', esk)) if esk
                 else const(None)}
            add(3, 'simple,%d,%d' % (alg, esk), [
                ('k', bytes([4, alg, 0, 8]))] + e, dict(f, **{
                    '#s2k': tm.mk('tuple', const(8), const(alg), const(b''),
                                  const(None))}))
            add(3, 'salted,%d,%d' % (alg, esk), [
                ('k', bytes([4, alg, 1, 2])), ('c', salt)] + e, dict(f, **{
                    '#s2k': tm.mk('tuple', const(2), const(alg), salt,
                                  const(None))}))
            if alg in (7, 9):
                for c in range(0, 256, 1 if alg == 9 and not esk and
                               tier == 'thorough' else 17):
                    add(3, 'iterated,%d,%d,%02x' % (alg, esk, c), [
                        ('k', bytes([4, alg, 3, 10])), ('c', salt),
                        ('k', bytes([c]))] + e, dict(f, **{
                            '#s2k': tm.mk('tuple', const(10), const(alg), salt,
                                          const((16 + (c & 15)) <<
                                                ((c >> 4) + 6)))}))

    # 4: one pass signature
    for st in (0, 1, 0x10):
        for nested in (0, 1, 2):
            a, k = F('algos', 2), F('keyid', 8)
            add(4, 'type %02x,nested %d' % (st, nested), [
                ('k', bytes([3, st])), ('c', a), ('c', k),
                ('k', bytes([nested]))], {
                    'version': const(3), 'signature_type': const(st),
                    'hash_algorithm': by(a), 'public_key_algorithm': by(a, 1),
                    'key_id': ('hex', k), 'nested': const(nested)})

    # 6, 14: public keys; 5, 7: secret keys
    for algo in sorted(SIZES):
        for ver in (2, 3, 4):
            for sizes in SIZES[algo]:
                if ver < 4 and algo != 1:
                    continue
                lab = 'v%d,algorithm %d,%s' % (
                    ver, algo, '/'.join(map(str, sizes)))
                pub, f = public(ver, algo, sizes)
                add(6, lab, pub, f)
                add(14, lab, pub, f)
                if sizes is not SIZES[algo][0] and tier == 'quick':
                    continue
                for ty in (5, 7):
                    sec = F('secret', 100)
                    enc = {'encrypted_portion': ('octets', sec)}
                    add(ty, lab + ',clear', pub + [('k', b'\0'), ('c', sec)],
                        dict(f, **enc))
                    for alg in sorted(BLOCK):
                        if alg not in (3, 9) and (algo != 1 or ver != 4):
                            continue
                        iv = F('iv', BLOCK[alg])
                        ff = dict(f, iv=('octets', iv), symmetric_algorithm=(
                            const(alg)), **enc)
                        add(ty, lab + ',md5 %d' % alg, pub + [
                            ('k', bytes([alg])), ('c', iv), ('c', sec)], ff)
                        for usage in (254, 255):
                            if ver < 4 and usage == 254:
                                continue
                            if tier == 'quick' and alg not in (3, 9):
                                continue
                            add(ty, lab + ',%d,simple %d' % (usage, alg),
                                pub + [('k', bytes([usage, alg, 0, 2])),
                                       ('c', iv), ('c', sec)], ff)
                            add(ty, lab + ',%d,salted %d' % (usage, alg),
                                pub + [('k', bytes([usage, alg, 1, 8])),
                                       ('c', salt), ('c', iv), ('c', sec)],
                                ff)
                            add(ty, lab + ',%d,iterated %d' % (usage, alg),
                                pub + [('k', bytes([usage, alg, 3, 2])),
                                       ('c', salt), ('k', b'\x60'),
                                       ('c', iv), ('c', sec)],
                                dict(ff, **{'#s2k': tm.mk(
                                    'tuple', const(2), const(alg), salt,
                                    const(65536))}))
                    if ver == 4:
                        add(ty, lab + ',gnupg dummy', pub + [
                            ('k', b'\xff\0\x65\2GNU\1')], dict(f, **{
                                '#gnupg': tm.mk('tuple', const(1001),
                                                const(2), const(None))}))
                        add(ty, lab + ',gnupg card', pub + [
                            ('k', b'\xff\0\x65\2GNU\2\x10' +
                             bytes(range(16)))], dict(f, **{
                                 '#gnupg': tm.mk(
                                     'tuple', const(1002), const(2), const(
                                         bytes(range(16)).hex().upper()))}))

    # data packets
    for n in (1, 2, 20, 200, 9000):
        d = F('d', n)
        for alg in (0, 1, 2, 3, 99):
            add(8, 'algorithm %d,%d' % (alg, n), [('k', bytes([alg])),
                                                  ('c', d)],
                {'compression_algorithm': const(alg),
                 'compressed_data': ('octets', d)})
        add(9, str(n), [('c', d)], {'data': ('octets', d)})
        add(18, str(n), [('k', b'\1'), ('c', d)], {
            'version': const(1), 'encrypted_data': ('octets', d)})
        add(13, str(n), [('c', d)], {'user_id': ('text', d)})
        add(16, str(n), [('c', d)], {'comment': ('text', d)})
        add(61, str(n), [('c', d)], {'comment': ('text', d)})
    add(13, 'empty', [], {'user_id': const('')})
    add(10, 'PGP', [('k', b'PGP')])
    add(10, 'other', [octets('m', 30)])
    t = F('t', 4)
    for fmt in (b'b', b't', b'u', b'l', b'1'):
        for nl in (0, 1, 8, 255):
            for n in (0, 1, 60, 9000):
                nm, d = F('name', nl), F('d', n)
                f = {'filename': ('text', nm) if nl else const(''),
                     'data_format': const(fmt), 'time': tm.rd(t, tm.ZERO, 4)}
                if n:
                    f['data'] = ({b't': 'latin', b'u': 'text'}.get(
                        fmt, 'octets'), d)
                add(11, '%s,%d,%d' % (fmt.decode(), nl, n), [
                    ('k', fmt + bytes([nl]))] + ([('c', nm)] if nl else []) +
                    [('c', t)] + ([('c', d)] if n else []), f)
    for v in (0, 1, 2, 5, 6, 0x80, 0xff):
        add(12, '%02x' % v, [('k', bytes([v]))], {'trust_value': const(v)})
    for v in (0, 1, 6):
        for s in (0, 1, 2, 3):
            add(12, '%02x,%02x' % (v, s), [('k', bytes([v, s]))], {
                'trust_value': const(v), 'sig_cache': const(s),
                'checked': const(bool(s & 1)), 'valid': const(bool(s & 2))})
    for n in (3, 6, 11):
        add(12, '%d octets' % n, [('k', b'\1\3'), octets('x', n - 2)])
    img = [('k', bytes([16, 0, 1, 1]) + bytes(12)), octets('img', 300)]
    at = [wrap(1, False, img), wrap(1, False, [
        ('k', bytes([16, 0, 1, 7]) + bytes(12)), octets('i2', 20)]),
        wrap(100, False, [octets('x', 30)]),
        wrap(2, False, [octets('y', 9000)])]
    for sel in ((0,), (2,), (0, 1), (1, 0, 2), (3, 0), (2, 2, 2), (3,)):
        add(17, ''.join(map(str, sel)), [p for i in sel for p in at[i]], {
            '#attributes': tm.mk('tuple', *[tm.bseq(at[i]) for i in sel])})
    d20 = F('mdc', 20)
    add(19, 'digest', [('c', d20)], {'data': ('octets', d20)})
    m8 = F('marker', 8)
    for ctl in (1, 2, 3):
        for n in (0, 1, 40):
            d = F('d', n)
            add(63, '%d,%d' % (ctl, n), [('c', m8), ('k', bytes([ctl]))] +
                ([('c', d)] if n else []), {
                    'session_marker': ('octets', m8), 'control': const(ctl),
                    'content_data': ('octets', d)})
    return out


def hexterm(t, n):
    from ..interp import hexoctet
    s = const('')
    for i in range(n):
        s = tm.strcat(s, hexoctet(tm.item(t, const(i))))
    return s


def whole(ty, parts, new=True):
    n = plen(parts)
    if new:
        return [('k', hdr_new(ty, n))] + parts
    lt = 0 if n < 256 else 1 if n < 65536 else 2
    return [('k', hdr_old(ty, n, lt))] + parts


def check(c):
    c.maxrec = 2
    pk = SPEC(c, 'pkts')
    c.rule('roundtrip', 'a packet of each kind, version and layout parses to '
           'an object whose bytes are the same octets (value graph equality '
           'for all field contents)', 800)
    c.rule('fields', 'each attribute of a parsed packet is the octets, '
           'integer or text RFC 4880 section 5 assigns to it', 800)
    c.rule('writer', 'a packet built from attribute values is written with '
           'the RFC 4880 section 5 layout', 20)

    def drive(rule, key, fn, args, want):
        def go():
            a = Run(c, pk, fn, args)
            c.same(rule, key, a.value, want, a.where)
        c.guard(rule, key, go)

    special = {'#subpackets': 'signature_subpackets', '#s2k': 's2k',
               '#gnupg': 'gnupg', '#attributes': 'attribute_subpackets'}
    for ty, label, parts, f in bodies(c.tier):
        key = '%s/%s' % (KINDS[ty], label)
        w = tm.bseq(whole(ty, parts))
        drive('roundtrip', key, 'roundtrip', [w], tm.mk(
            'tuple', tm.length(w), w))
        if ty < 16:
            o = tm.bseq(whole(ty, parts, False))
            drive('roundtrip', key + '/old format', 'roundtrip', [o], tm.mk(
                'tuple', tm.length(o), o))
        plain = []
        for n in sorted(f):
            v = f[n]
            if n in special:
                drive('fields', key + '/' + n[1:], special[n], [w], v)
            elif isinstance(v, tuple) and v[0] == 'hex':
                plain.append((n, hexterm(v[1], 8)))
            elif isinstance(v, tuple):
                drive('fields', '%s/%s' % (key, n), v[0], [w, const(n)], v[1])
            else:
                plain.append((n, v))
        if plain:
            drive('fields', '%s/%s' % (key, '+'.join(n for n, v in plain)),
                  'fields', [w, tm.mk('tuple', *[const(n) for n, v in plain])],
                  tm.mk('tuple', *[v for n, v in plain]))

    # writers
    NEW, OLD = const(1), const(2)

    def wr(key, fn, args, ty, parts, facts=()):
        for new in (True, False):
            if not new and ty >= 16:
                continue

            def go():
                a = Run(c, pk, fn, args(NEW if new else OLD), facts=facts)
                c.same('writer', key + ('' if new else '/old format'),
                       a.value, tm.bseq(whole(ty, parts, new)), a.where,
                       facts)
            c.guard('writer', key, go)
    k8, e66, h2 = F('keyid', 8), F('esk', 66), F('hash2', 2)
    b = [tm.rd(F('n', 4), const(i), 1) for i in range(4)]
    kid = hexterm(k8, 8)
    o = lambda i: ('b', b[i])
    nz = (tm.cmp_('!=', tm.item(k8, tm.ZERO), tm.ZERO),)
    wr('PKESK', 'w_pkesk', lambda f: [f, const(3), kid, b[0], e66], 1,
       [('k', b'\3'), ('c', k8), o(0), ('c', e66)])
    wr('PKESK/hidden', 'w_pkesk', lambda f: [f, const(3), const(None), b[0],
                                             e66], 1,
       [('k', b'\3' + bytes(8)), o(0), ('c', e66)])
    wr('OnePass', 'w_ops', lambda f: [f, const(3), b[0], b[1], b[2], kid,
                                      b[3]], 4,
       [('k', b'\3'), o(0), o(1), o(2), ('c', k8), o(3)])
    t = F('t', 4)
    when = tm.rd(t, tm.ZERO, 4)
    for ver in (3, 4):
        for algo in sorted(SIZES):
            if ver == 3 and algo != 1:
                continue
            parts, f = public(ver, algo, SIZES[algo][0])
            for sub, ty in ((False, 6), (True, 14)):
                wr('%s/v%d,%d' % (KINDS[ty], ver, algo), 'w_public',
                   lambda fm: [const(sub), fm, const(ver), when, const(algo),
                               f['expiration_days'], f['modulus'],
                               f['exponent'], f['prime'], f['group_order'],
                               f['group_generator'], f['key_value']],
                   ty, parts)
    m1, x1 = mpi('s1', 1023)
    r1, y1 = mpi('r', 160)
    r2, y2 = mpi('s', 157)
    for algo, parts, vals in ((1, m1, [x1]), (17, r1 + r2, [y1, y2])):
        wr('Signature/v3,%d' % algo, 'w_sig3', lambda f: [
            f, const(3), b[0], const(algo), b[1], h2, tm.mk('tuple', *vals),
            when, kid], 2, [('k', b'\3\5'), o(0), ('c', t), ('c', k8),
                            ('k', bytes([algo])), o(1), ('c', h2)] + parts)
    d = F('d', 50)
    wr('Literal/b', 'w_literal', lambda f: [
        f, const(b'b'), const('n\xe9'), when, d], 11,
       [('k', b'b\3n\xc3\xa9'), ('c', t), ('c', d)])
    for kind in (b't', b'u'):
        s = 'gr\xfc\xdfe'
        wr('Literal/%s' % kind.decode(), 'w_literal', lambda f: [
            f, const(kind), const('name'), when, const(s)], 11,
           [('k', kind + b'\4name'), ('c', t), ('k', s.encode(
               'latin-1' if kind == b't' else 'utf8'))])
    wr('UserID', 'w_userid', lambda f: [f, const('J\xf6 <j@x>')], 13,
       [('k', 'J\xf6 <j@x>'.encode('utf8'))])
    wr('Compressed', 'w_compressed', lambda f: [f, b[0], d], 8,
       [o(0), ('c', d)])
    wr('MDC', 'w_mdc', lambda f: [f, F('mdc', 20)], 19, [octets('mdc', 20)])
    wr('IntegrityProtected', 'w_seip', lambda f: [f, b[0], d], 18,
       [o(0), ('c', d)])
    wr('Encrypted', 'w_sed', lambda f: [f, d], 9, [('c', d)])
    wr('Trust/1', 'w_trust', lambda f: [f, b[0], const(None)], 12, [o(0)])
    wr('Trust/2', 'w_trust', lambda f: [f, b[0], b[1]], 12, [o(0), o(1)])
