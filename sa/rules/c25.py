"""C25: signature and key attributes against the subpackets defining them."""
from .. import terms as tm
from ..terms import const, mk
from ..interp import hexoctet
from .c14 import F, mpi, public, whole
from .c15 import octets, plen, wrap
from .common import Run, SPEC

BITS = (('may_certify_others', 1), ('may_sign_data', 2),
        ('may_encrypt_comms', 4), ('may_encrypt_storage', 8),
        ('may_have_been_split', 16), ('may_be_used_for_auth', 32),
        ('may_have_multiple_owners', 128))
NAMES = ['creation_time', 'issuer_key_ids', 'signature_expiration_time',
         'exportable', 'trust_amount', 'trust_depth', 'regular_expressions',
         'revocable', 'notations', 'issuer_user_id', 'revocation_reason',
         'revocation_code', 'embedded_signatures', 'key_expiration_time',
         'preferred_compression_algorithms', 'preferred_hash_algorithms',
         'preferred_symmetric_algorithms', 'revocation_keys',
         'key_server_should_not_modify', 'preferred_key_server',
         'primary_user_id', 'policy_uri', 'supports_modification_detection'
         ] + [b[0] for b in BITS]
# Absent, these have a default the implementation may or may not fill in.
DEFAULTED = ('exportable', 'revocable')
EMPTY = mk('tuple')
ABSENT = dict.fromkeys(NAMES, tm.FALSE)
for _n in ('issuer_key_ids', 'regular_expressions', 'notations',
           'embedded_signatures', 'preferred_compression_algorithms',
           'preferred_hash_algorithms', 'preferred_symmetric_algorithms',
           'revocation_keys'):
    ABSENT[_n] = EMPTY
for _n in ('signature_expiration_time', 'issuer_user_id', 'revocation_reason',
           'revocation_code', 'key_expiration_time', 'preferred_key_server',
           'policy_uri', 'creation_time'):
    ABSENT[_n] = tm.NONE
for _n in ('trust_amount', 'trust_depth'):
    ABSENT[_n] = tm.ZERO
# attributes of a key that mirror its newest self-signature
MIRRORED = [n for n in NAMES if n not in (
    'creation_time', 'issuer_key_ids', 'signature_expiration_time',
    'exportable', 'trust_amount', 'trust_depth', 'regular_expressions',
    'revocable', 'notations', 'issuer_user_id', 'revocation_reason',
    'revocation_code', 'embedded_signatures', 'key_expiration_time')]


def hexterm(t):
    s = const('')
    for i in range(int(tm.cval(tm.length(t)))):
        s = tm.strcat(s, hexoctet(tm.item(t, const(i))))
    return s


def tup(*a):
    return mk('tuple', *a)


def kinds(sfx, ct, kt):
    """[(type, label, content parts, {attribute: value})] with contents named
    apart by sfx; ct, kt: creation times of signature and key."""
    out = []

    def f(n, k):
        return F(n + sfx, k)

    def after(base, x):
        return tm.phi(tm.cmp_('==', x, tm.ZERO), tm.NONE,
                      mk('dt', tm.add(base, x)))
    t = f('exp', 4)
    out.append((3, 'expiration', [('c', t)], {
        'signature_expiration_time': after(ct, tm.rd(t, tm.ZERO, 4))}))
    for v in (0, 1):
        out.append((4, 'exportable%d' % v, [('k', bytes([v]))],
                    {'exportable': const(bool(v))}))
        out.append((7, 'revocable%d' % v, [('k', bytes([v]))],
                    {'revocable': const(bool(v))}))
        out.append((25, 'primary%d' % v, [('k', bytes([v]))],
                    {'primary_user_id': const(bool(v))}))
        out.append((23, 'key server%d' % v, [('k', bytes([v << 7]))],
                    {'key_server_should_not_modify': const(bool(v))}))
        out.append((30, 'features%d' % v, [('k', bytes([v]))],
                    {'supports_modification_detection': const(bool(v))}))
    t = f('trust', 2)
    out.append((5, 'trust', [('c', t)], {
        'trust_depth': tm.rd(t, const(0), 1),
        'trust_amount': tm.rd(t, const(1), 1)}))
    t = f('regex', 9)
    out.append((6, 'regex', [('c', t), ('k', b'\0')],
                {'regular_expressions': tup(t)}))
    t = f('keyexp', 4)
    out.append((9, 'key expiration', [('c', t)], {
        'key_expiration_time': after(kt, tm.rd(t, tm.ZERO, 4))}))
    for ty, n in ((11, 'symmetric'), (21, 'hash'), (22, 'compression')):
        t = f('pref' + n, 3)
        out.append((ty, n, [('c', t)], {
            'preferred_%s_algorithms' % n: tup(*[
                tm.item(t, const(i)) for i in range(3)])}))
    for v in (0x80, 0xc0):
        t, u = f('revalg', 1), f('revkey', 20)
        out.append((12, 'revocation key %x' % v,
                    [('k', bytes([v])), ('c', t), ('c', u)],
                    {'revocation_keys': tup(tup(
                        tm.rd(t, tm.ZERO, 1), hexterm(u),
                        const(v == 0xc0)))}))
    t = f('issuer', 8)
    out.append((16, 'issuer', [('c', t)], {'issuer_key_ids': tup(hexterm(t))
                                           }))
    for hr in (0, 0x80):
        t = f('notation', 6)
        out.append((20, 'notation %x' % hr,
                    [('k', bytes([hr, 0, 0, 0, 0, 7, 0, 6]) + b'na@me.e'),
                     ('c', t)],
                    {'notations': tup(tup(const('na'), const('me.e'),
                                          const(bool(hr)), t))}))
    t = f('server', 11)
    out.append((24, 'preferred key server', [('c', t)],
                {'preferred_key_server': t}))
    t = f('policy', 12)
    out.append((26, 'policy', [('c', t)], {'policy_uri': t}))
    t = f('signer', 13)
    out.append((28, 'signer', [('c', t)], {'issuer_user_id': t}))
    t, u = f('code', 1), f('reason', 14)
    out.append((29, 'reason', [('c', t), ('c', u)], {
        'revocation_code': tm.rd(t, tm.ZERO, 1), 'revocation_reason': u}))
    for n, b in BITS:
        out.append((27, n, [('k', bytes([b]))], {n: tm.TRUE}))
        out.append((27, 'all but ' + n, [('k', bytes([255 ^ b]))],
                    dict([(m, const(m != n)) for m, _ in BITS])))
    t = f('embedded', 2)
    m, _ = mpi('embsig' + sfx, 31)
    inner = [('k', b'\4\x19\1\2\0\0\0\0'), ('c', t)] + m
    out.append((32, 'embedded', inner, {'embedded_signatures': tup(
        tm.bseq(inner))}))
    return out


def sig(st, hashed, unhashed=(), tag='', when=None):
    """A version 4 signature packet."""
    h = wrap(2, False, when or [('c', F('ct' + tag, 4))])
    for x in hashed:
        h += x
    u = []
    for x in unhashed:
        u += x
    m, _ = mpi('value' + tag, 33)
    return tm.bseq(whole(2, [('k', bytes([4, st, 1, 2]) + plen(h).to_bytes(
        2, 'big'))] + h + [('k', plen(u).to_bytes(2, 'big'))] + u +
        [('c', F('h2' + tag, 2))] + m))


def values(got, ct):
    want = dict(ABSENT)
    want['creation_time'] = mk('dt', ct)
    want.update(got)
    return want


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'sigattr')
    c.rule('read', 'with one subpacket of each type present, every attribute '
           'of the signature is the one RFC 4880 5.2.3 defines by it and all '
           'others are absent', 50)
    c.rule('area', 'a subpacket of the hashed area takes precedence over the '
           'same subpacket of the unhashed area', 20)
    c.rule('write', 'setting an attribute, writing the signature and reading '
           'it back gives the value set, and leaves all other attributes as '
           'they were', 40)
    c.rule('hashed', 'an attribute that is set is written to the hashed area',
           15)
    c.rule('version 3', 'version 3 signatures carry creation time and issuer',
           2)
    c.rule('newest', 'key, user ID, attribute and subkey attributes are those '
           'of the newest self-signature', 20)
    kp, kf = public(4, 1, (65, 17))
    kt = kf['creation_time']
    key = tm.bseq(whole(6, kp))
    uid = tm.bseq(whole(13, [('k', b'me')]))
    ct = tm.rd(F('ct', 4), tm.ZERO, 4)

    def names_of(ns):
        return tup(*[const(n) for n in ns])

    def drive(rule, k, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, k, a.value, want, a.where)
        c.guard(rule, k, go)

    def checked(got):
        return [n for n in NAMES if n not in DEFAULTED or n in got]

    for area in ('hashed', 'unhashed'):
        for ty, lab, parts, got in kinds('', ct, kt):
            for crit in (False, True):
                if crit and ty == 20:
                    continue        # critical notations are refused
                w = wrap(ty, crit, parts)
                s = sig(0x13, [w]) if area == 'hashed' else sig(
                    0x13, [], [w])
                ns = checked(got)
                want = values(got, ct)
                drive('read', '%s,%s%s' % (lab, area, ',critical' if crit
                                           else ''), 'read',
                      [s, key, uid, names_of(ns)],
                      tup(*[want[n] for n in ns]))
                if not crit and area == 'hashed':
                    drive('read', '%s,on a key' % lab, 'read_on_key',
                          [s, key, names_of(ns)],
                          tup(*[want[n] for n in ns]))
    drive('read', 'nothing else', 'read', [
        sig(0x13, []), key, uid, names_of(checked({}))],
        tup(*[values({}, ct)[n] for n in checked({})]))

    # the same subpacket in both areas
    many = ('issuer_key_ids', 'regular_expressions', 'notations',
            'revocation_keys', 'embedded_signatures')
    b = kinds('_unhashed', ct, kt)
    for (ty, lab, parts, got), (_, _, parts2, got2) in zip(
            kinds('', ct, kt), b):
        ns = [n for n in got if n not in many]
        if not ns:
            continue
        other = [wrap(t, False, p) for t, l, p, g in b if t == ty]
        for o in other:
            s = sig(0x13, [wrap(ty, False, parts)], [o])
            drive('area', '%s,%d' % (lab, other.index(o)), 'read',
                  [s, key, uid, names_of(ns)], tup(*[got[n] for n in ns]))

    # version 3
    m, _ = mpi('v3', 33)
    for st in (0x10, 0x1f):
        s3 = tm.bseq(whole(2, [('k', bytes([3, 5, st])), ('c', F('ct', 4)),
                               ('c', F('kid', 8)), ('k', b'\1\2'),
                               ('c', F('h2', 2))] + m))
        ns = checked({})
        want = values({'issuer_key_ids': tup(hexterm(F('kid', 8)))}, ct)
        drive('version 3', 'type %x' % st, 'read',
              [s3, key, uid, names_of(ns)], tup(*[want[n] for n in ns]))

    writes(c, drive, key, uid, ct, kt, checked, names_of)
    newest(c, drive, kp, kf, names_of)
    c.assumptions.append('the local offset from UTC is the same at all '
                         'times (daylight saving changes are not modelled)')


def samples(ct, kt):
    """attribute -> (type, value passed, value read back)"""
    out = [
        ('exportable', 4, tm.FALSE, None), ('exportable', 4, tm.TRUE, None),
        ('revocable', 7, tm.FALSE, None), ('revocable', 7, tm.TRUE, None),
        ('trust_amount', 5, const(60), None),
        ('trust_depth', 5, const(2), None),
        ('issuer_user_id', 28, const('me'), const(b'me')),
        ('policy_uri', 26, const('http://p'), const(b'http://p')),
        ('preferred_key_server', 24, const('hkp://k'), const(b'hkp://k')),
        ('revocation_reason', 29, const('lost'), const(b'lost')),
        ('revocation_code', 29, const(3), None),
        ('primary_user_id', 25, tm.TRUE, None),
        ('primary_user_id', 25, tm.FALSE, None),
        ('key_server_should_not_modify', 23, tm.TRUE, None),
        ('key_server_should_not_modify', 23, tm.FALSE, None),
        ('supports_modification_detection', 30, tm.TRUE, None),
        ('supports_modification_detection', 30, tm.FALSE, None),
        ('signature_expiration_time', 3, mk('dt', tm.add(ct, const(86400))),
         None),
        ('signature_expiration_time', 3, mk('dt', tm.add(ct, const(
            3 * 86400 + 61))), None),
        ('key_expiration_time', 9, mk('dt', tm.add(kt, const(86401))), None),
        ('key_expiration_time', 9, mk('dt', tm.add(kt, const(400 * 86400))),
         None),
        ('issuer_key_ids', 16, tup(const('0123456789ABCDEF')), None),
        ('revocation_keys', 12, tup(tup(const(17), const('AB' * 20),
                                        tm.TRUE)), None),
        ('notations', 20, tup(tup(const('dom.e'), const('na'), const('val'),
                                  tm.TRUE)),
         tup(tup(const('na'), const('dom.e'), tm.TRUE, const(b'val')))),
        ('regular_expressions', 6, tup(const('a+b')), tup(const(b'a+b'))),
    ]
    for ty, n in ((11, 'symmetric'), (21, 'hash'), (22, 'compression')):
        out.append(('preferred_%s_algorithms' % n, ty,
                    tup(const(9), const(2)), None))
    for n, b in BITS:
        out.append((n, 27, tm.TRUE, None))
        out.append((n, 27, tm.FALSE, None))
    return out


def writes(c, drive, key, uid, ct, kt, checked, names_of):
    one = {}
    for ty, lab, parts, got in kinds('', ct, kt):
        if ty in one and lab not in ('all but may_sign_data', 'notation 80'):
            continue
        one[ty] = (parts, got)
    creation = {
        'creation_time': mk('dt', tm.rd(F('new', 4), tm.ZERO, 4))}
    everything = [wrap(ty, False, p) for ty, (p, g) in sorted(one.items())]
    had = {}
    for ty, (p, g) in one.items():
        had.update(g)
    for name, ty, val, back in samples(ct, kt):
        back = val if back is None else back
        lab = '%s=%s' % (name, tm.show(val, 3)[:40])
        ns = [n for n in checked({}) if n != name] + [name]
        # on a signature with nothing but a creation time
        want = values({name: back}, ct)
        if ty in (5, 29):
            ns = [n for n in ns if n == name or not n.startswith(
                ('trust', 'revocation_'))] # the pair gets some default
        drive('write', lab + ',new', 'change', [
            sig(0x13, []), key, uid, const(name), val, names_of(ns)],
            tup(*[want[n] for n in ns]))
        drive('hashed', lab + ',new', 'where_written', [
            sig(0x13, []), key, uid, const(name), val],
            tup(tup(*[const(x) for x in sorted((2, ty))]), EMPTY))
        # on one that has every subpacket
        ns = NAMES
        want = values(had, ct)
        want[name] = back
        drive('write', lab + ',existing', 'change', [
            sig(0x13, everything), key, uid, const(name), val,
            names_of(ns)], tup(*[want[n] for n in ns]))
    # the creation time; expiry stays where it was
    new = tm.rd(F('new', 4), tm.ZERO, 4)
    ns = [n for n in NAMES if n not in ('signature_expiration_time',)]
    want = values(had, ct)
    want['creation_time'] = mk('dt', new)
    noexp = [wrap(ty, False, p) for ty, (p, g) in sorted(one.items())
             if ty != 3]
    want['signature_expiration_time'] = tm.NONE
    drive('write', 'creation_time', 'change', [
        sig(0x13, noexp), key, uid, const('creation_time'), mk('dt', new),
        names_of(NAMES)], tup(*[want[n] for n in NAMES]))
    drive('write', 'creation_time,with expiration', 'change', [
        sig(0x13, [wrap(3, False, [('k', (86400 * 9).to_bytes(4, 'big'))])],
            when=[('k', (10 ** 9).to_bytes(4, 'big'))]),
        key, uid, const('creation_time'),
        mk('dt', const(10 ** 9 + 86400 * 2 + 5)),
        names_of(['creation_time', 'signature_expiration_time'])],
        tup(mk('dt', const(10 ** 9 + 86400 * 2 + 5)),
            mk('dt', const(10 ** 9 + 86400 * 9))))


def newest(c, drive, kp, kf, names_of):
    body = tm.bseq(kp)
    kt = kf['creation_time']
    sha = tm.bseq([('k', b'\x99' + plen(kp).to_bytes(2, 'big'))] + kp)
    dig = mk('digest', mk('alg', 'sha1'), sha)
    kid = [('c', tm.slice_(dig, const(12), const(20)))]
    key = tm.bseq(whole(6, kp))
    sub = tm.bseq(whole(14, public(4, 1, (66, 17))[0]))
    uid = tm.bseq(whole(13, [('k', b'me')]))
    attr = tm.bseq(whole(17, [
        ('k', b'\x15\x01\x10\x00\x01\x01' + bytes(12) + b'img1')]))

    def selfsig(st, when, extra, tag):
        h = wrap(2, False, [('k', when.to_bytes(4, 'big'))])
        for x in extra:
            h += x
        u = wrap(16, False, kid)
        m, _ = mpi('value' + tag, 33)
        return tm.bseq(whole(2, [
            ('k', bytes([4, st, 1, 2]) + plen(h).to_bytes(2, 'big'))] + h +
            [('k', plen(u).to_bytes(2, 'big'))] + u +
            [('c', F('h2' + tag, 2))] + m))

    def full(sfx, flip):
        seen, out, got = set(), [], {}
        for ty, lab, parts, g in kinds(sfx, tm.ZERO, kt):
            if ty in (3, 32, 16, 29, 20):
                continue
            want1 = lab.endswith('1') or lab == 'all but may_sign_data'
            pick = not (lab[-1:] in '01' or ty == 27) or want1 == flip
            if ty == 27 and not lab.startswith('all but') and lab != \
                    'may_sign_data':
                continue
            if ty == 27 and lab.startswith('all but') and lab != \
                    'all but may_sign_data':
                continue
            if not pick or ty in seen:
                continue
            seen.add(ty)
            out.append(wrap(ty, False, parts))
            got.update(g)
        for n in MIRRORED:
            got.setdefault(n, ABSENT[n])
        return out, got
    e1, g1 = full('_old', False)
    e2, g2 = full('_new', True)
    T1, T2 = 1000000000, 1100000000
    for what, st, pre in (('key', 0x1f, [key]), ('uid', 0x13, [key, uid]),
                          ('uid', 0x10, [key, uid]),
                          ('attribute', 0x13, [key, attr]),
                          ('subkey', 0x18, [key, sub])):
        new = selfsig(st, T2, e2, '2')
        old = selfsig(st, T1, e1, '1')
        names = MIRRORED
        for lab, seq in (('newest last', [old, new]),
                         ('newest first', [new, old]), ('one', [new])):
            ns = names + ['expiration_time']
            want = dict(g2, expiration_time=g2['key_expiration_time'])
            for n in ns:
                drive('newest', '%s %x,%s,%s' % (what, st, n, lab),
                      'key_read', [tup(*(pre + seq)), const(what),
                                   names_of([n])], tup(want[n]))


