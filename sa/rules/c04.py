"""C04: validating the signatures found on keys."""
from .. import terms as tm
from ..sigmodel import F, Item, Key, SIZE, Sig, TYPES, hexterm, sub
from ..terms import const, mk
from .common import Run, SPEC

HASHES = (1, 2, 3, 8, 9, 10, 11)
NO = const('rejected')
NOW = tm.rd(F('now', 4), tm.ZERO, 4)
NONE = const(None)


def tup(*a):
    return mk('tuple', *a)


def le(a, b):
    return tm.cmp_('<=', a, b)


def lt(a, b):
    return tm.cmp_('<', a, b)


def same_id(a, b):
    return tm.cmp_('==', hexterm(a), hexterm(b))


def at_now(t):
    """Every reading of the clock gives the same time."""
    def f(s):
        if s.op == 'call' and s.args[0] == 'now':
            return NOW
        return None
    return tm.rewrite(t, f)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'sigs')
    c.rule('accept', 'validating a signature succeeds exactly when the key '
           'existed before it, neither lies in the future, its check octets '
           'equal the digest of its own target and the primitive, given the '
           'key it is to be checked with, accepts', 60)
    c.rule('kind', 'a signature type that does not belong on keys is never '
           'valid', 6)
    c.rule('expired', 'a signing key that has expired is reported, or '
           'refused in strict mode', 8)
    c.rule('revoked', 'a revoked signing key is reported, or refused in '
           'strict mode', 6)
    c.rule('back', 'a binding of a subkey that signs needs a valid signature '
           'made by the subkey', 6)
    c.rule('revoker', 'a key revocation by another key is valid only for the '
           'revokers the key names', 4)
    c.rule('marked', 'validate_signatures marks a signature valid only after '
           'it was checked with the key of the issuer it names, invalid '
           'after a failed check and leaves it undecided otherwise', 30)

    def crypto(key, sig, octets):
        if sig.algo != key.algo:
            return tm.FALSE
        size = ((key.sizes[0] if key.algo in (1, 3) else
                 key.sizes[1]) + 7) // 8
        return Run(c, sp, 'ref_accept', [
            const(key.algo), key.params, const(sig.halg), octets, sig.h2,
            tup(*sig.values), const(size)]).value

    def times(key, sig):
        return tm.and_(le(key.created, sig.created), le(key.created, NOW),
                       le(sig.created, NOW))

    def valid(key, sig, octets):
        return tm.and_(times(key, sig), crypto(key, sig, octets))

    def outcome(r):
        return at_now(tm.phi(r.accept, r.value, NO))

    def run(rule, lab, fn, args, want):
        def go():
            r = Run(c, sp, fn, args)
            c.same(rule, lab, outcome(r), want(), r.where)
        c.guard(rule, lab, go)

    def one(rule, lab, item, sig, want, signer=None, strict=False):
        """want: condition under which it is valid, or (condition, value)"""
        def go():
            w = want()
            w, v = w if isinstance(w, tuple) else (w, tup(tm.FALSE, tm.FALSE))
            return tm.phi(w, v, NO)
        run(rule, lab, 'validate', [
            tup(*item.packets), const(item.what), sig.packet,
            NONE if signer is None else tup(*signer), mk('dt', NOW),
            const(strict)], go)

    thorough = c.tier == 'thorough'
    sk = Key(4, 1, '_sub')
    for algo in (1, 3, 17, 20):
        for kver in (4, 3) if algo in (1, 3) else (4,):
            key = Key(kver, algo)
            for sver in (4, 3) if kver == 4 or thorough else (3,):
                for what in ('uid', 'attribute', 'key', 'subkey'):
                    item = Item(what, key, sk)
                    for n, st in enumerate(TYPES[what]):
                        hs = HASHES if thorough else (
                            HASHES[(algo + n + sver + kver) % 7],)
                        for h in hs:
                            s = Sig(sver, st, algo, h, [key.kid])
                            for strict in (False, True):
                                one('accept', 'key v%d,algorithm %d,v%d,%s '
                                    'type %x,digest %d%s' % (
                                        kver, algo, sver, what, st, h,
                                        ',strict' if strict else ''),
                                    item, s, lambda: valid(
                                        key, s, s.octets(item)),
                                    strict=strict)
    # made by another key
    for a1, a2 in ((1, 1), (1, 17), (17, 1), (17, 20), (20, 3)):
        key, signer = Key(4, a1), Key(4, a2, '_signer')
        for what, st in (('uid', 0x10), ('uid', 0x11), ('uid', 0x12),
                         ('uid', 0x13), ('uid', 0x30), ('attribute', 0x13),
                         ('attribute', 0x30), ('key', 0x1f)):
            item = Item(what, key)
            for sver in (4, 3):
                s = Sig(sver, st, a2, 8, [signer.kid])
                one('accept', 'key of algorithm %d signed by %d,v%d,%s type '
                    '%x' % (a1, a2, sver, what, st), item, s,
                    lambda: valid(signer, s, s.octets(item)),
                    [signer.packet()])
            if a1 != a2:
                s = Sig(4, st, a1, 8, [signer.kid])
                one('accept', 'key of algorithm %d signed by %d,as %d,%s '
                    'type %x' % (a1, a2, a1, what, st), item, s,
                    lambda: tm.FALSE, [signer.packet()])
    # types that do not belong there
    key = Key(4, 1)
    for st in (0, 1, 2, 0x19, 0x40, 0x50, 0x60, 0xff):
        for what in ('uid', 'key', 'subkey'):
            item = Item(what, key, sk)
            s = Sig(4, st, 1, 8, [key.kid])
            one('kind', '%s type %x' % (what, st), item, s,
                lambda: tm.FALSE)

    # expired keys
    for days in (0, 1, 100, 65535):
        key = Key(3, 1, days=days)
        end = tm.add(key.created, const(days * 86400))
        late = tm.and_(tm.bool_(const(days)), lt(end, NOW))
        for what, st in (('uid', 0x13), ('attribute', 0x30), ('key', 0x20)):
            item = Item(what, key)
            s = Sig(3, st, 1, 8, [key.kid])
            one('expired', 'v3 key,%d days,%s type %x' % (days, what, st),
                item, s, lambda: (valid(key, s, s.octets(item)),
                                  tup(late, tm.FALSE)))
            one('expired', 'v3 key,%d days,%s type %x,strict' % (
                days, what, st), item, s,
                lambda: tm.and_(valid(key, s, s.octets(item)),
                                tm.not_(late)), strict=True)
    for secs in (None, 0, 1, 86400, 0xffffffff):
        key = Key(4, 1)
        if secs is None:
            t = F('expiry', 4)
            n, p = tm.rd(t, tm.ZERO, 4), [('c', t)]
        else:
            n, p = const(secs), [('k', secs.to_bytes(4, 'big'))]
        own = Sig(4, 0x1f, 1, 8, [key.kid], [sub(9, p)], tag='_own',
                  when=1000000000)
        late = tm.and_(tm.cmp_('!=', n, tm.ZERO),
                       lt(tm.add(key.created, n), NOW))
        for what, st in (('uid', 0x13), ('attribute', 0x30), ('key', 0x20)):
            item = Item(what, key)
            item.packets.insert(1, own.packet)
            s = Sig(4, st, 1, 8, [key.kid])
            lab = 'v4 key,%s seconds,%s type %x' % (
                'some' if secs is None else secs, what, st)
            one('expired', lab, item, s,
                lambda: (valid(key, s, s.octets(item)), tup(late, tm.FALSE)))
            one('expired', lab + ',strict', item, s,
                lambda: tm.and_(valid(key, s, s.octets(item)),
                                tm.not_(late)), strict=True)

    # revoked keys
    other = F('issuer', 8)
    for algo, who in ((1, 'itself'), (17, 'itself'), (1, 'someone')):
        key = Key(4, algo)
        by = key.kid if who == 'itself' else other
        rev = Sig(4, 0x20, algo, 8, [by], tag='_rev')
        is_ = tm.TRUE if who == 'itself' else same_id(other, key.kid)
        for what, st in (('uid', 0x13), ('attribute', 0x30), ('key', 0x1f)):
            item = Item(what, key)
            item.packets.insert(1, rev.packet)
            s = Sig(4, st, algo, 8, [key.kid])
            lab = 'algorithm %d,revoked by %s,%s type %x' % (
                algo, who, what, st)
            one('revoked', lab, item, s,
                lambda: (valid(key, s, s.octets(item)), tup(tm.FALSE, is_)))
            one('revoked', lab + ',strict', item, s,
                lambda: tm.and_(valid(key, s, s.octets(item)),
                                tm.not_(is_)), strict=True)
        signer = Key(4, algo, '_signer')
        by = signer.kid if who == 'itself' else other
        rev = Sig(4, 0x20, algo, 8, [by], tag='_rev')
        is_ = tm.TRUE if who == 'itself' else same_id(other, signer.kid)
        item = Item('uid', key)
        s = Sig(4, 0x10, algo, 8, [signer.kid])
        lab = 'algorithm %d,signer revoked by %s' % (algo, who)
        one('revoked', lab, item, s,
            lambda: (valid(signer, s, s.octets(item)), tup(tm.FALSE, is_)),
            [signer.packet(), rev.packet])
        one('revoked', lab + ',strict', item, s,
            lambda: tm.and_(valid(signer, s, s.octets(item)), tm.not_(is_)),
            [signer.packet(), rev.packet], True)

    # keys that are subkeys of another
    for algo in (1, 17):
        key, top = Key(4, 1), Key(4, algo, '_signer')
        ring = Key(4, algo, '_ring')
        for what, st in (('uid', 0x10), ('attribute', 0x30), ('key', 0x1f)):
            for state, who, secs in (
                    ('plain', None, None), ('revoked', 'top', None),
                    ('revoked', 'someone', None), ('expires', None, 0),
                    ('expires', None, 86400)):
                item = Item(what, key)
                s = Sig(4, st, algo, 8, [ring.kid])
                signers = [top.packet(), ring.packet('subkey')]
                late = bad = tm.FALSE
                if state == 'revoked':
                    by = top.kid if who == 'top' else other
                    signers.append(Sig(4, 0x28, algo, 8, [by],
                                       tag='_rev').packet)
                    bad = tm.TRUE if who == 'top' else same_id(other, top.kid)
                elif state == 'expires':
                    signers.append(Sig(
                        4, 0x18, algo, 8, [top.kid],
                        [sub(9, [('k', secs.to_bytes(4, 'big'))])],
                        tag='_bind', when=1000000000).packet)
                    late = tm.and_(tm.bool_(const(secs)), lt(
                        tm.add(ring.created, const(secs)), NOW))
                for strict in (False, True):
                    def want():
                        v = valid(ring, s, s.octets(item))
                        if strict:
                            v = tm.and_(v, tm.not_(late), tm.not_(bad))
                            return tm.phi(v, tup(tm.FALSE, tm.FALSE), NO)
                        return tm.phi(v, tup(late, bad), NO)
                    run('expired' if state == 'expires' else 'revoked',
                        'by subkey,algorithm %d,%s type %x,%s %s%s' % (
                            algo, what, st, state,
                            secs if who is None else who,
                            ',strict' if strict else ''),
                        'validate_by_subkey', [
                            tup(*item.packets), const(what), s.packet,
                            tup(*signers), mk('dt', NOW), const(strict)],
                        want)

    # back signatures
    for algo in (1, 17):
        for sub_algo in (1, 17):
            key, ring = Key(4, algo), Key(4, sub_algo, '_sub')
            item = Item('subkey', key, ring)
            back = Sig(4, 0x19, sub_algo, 2, [ring.kid], tag='_back')
            inner = sub(32, back.body)
            for flags in (2, 3, 0x2e):
                f = sub(27, [('k', bytes([flags]))])
                lab = 'key %d,subkey %d,flags %x' % (algo, sub_algo, flags)
                s = Sig(4, 0x18, algo, 8, [key.kid], [f])
                one('back', lab + ',none', item, s, lambda: tm.FALSE)
                s = Sig(4, 0x18, algo, 8, [key.kid], [f, inner])
                want = lambda: tm.and_(
                    valid(key, s, s.octets(item)),
                    valid(ring, back, back.octets(item)))
                one('back', lab + ',hashed', item, s, want)
                s2 = Sig(4, 0x18, algo, 8, [key.kid], [f], [inner])
                one('back', lab + ',unhashed', item, s2, lambda: tm.and_(
                    valid(key, s2, s2.octets(item)),
                    valid(ring, back, back.octets(item))))
            for kind in (0x13, 0x18, 0):
                wrong = Sig(4, kind, sub_algo, 2, [ring.kid], tag='_back')
                s = Sig(4, 0x18, algo, 8, [key.kid], [
                    sub(27, [('k', b'\2')]), sub(32, wrong.body)])
                one('back', 'key %d,subkey %d,of type %x' % (
                    algo, sub_algo, kind), item, s, lambda: tm.FALSE)
            for flags in (0, 1, 4, 0xc):
                s = Sig(4, 0x18, algo, 8, [key.kid],
                        [sub(27, [('k', bytes([flags]))])])
                one('back', 'key %d,subkey %d,flags %x,not needed' % (
                    algo, sub_algo, flags), item, s,
                    lambda: valid(key, s, s.octets(item)))
    # a binding not made by the primary key
    key = Key(4, 1)
    item = Item('subkey', key, sk)
    s = Sig(4, 0x18, 1, 8, [other])
    one('back', 'binding by another key', item, s, lambda: tm.and_(
        same_id(other, key.kid), valid(key, s, s.octets(item))))

    # designated revokers
    for algo in (1, 17):
        key, signer = Key(4, algo), Key(4, 1, '_signer')
        for named in (True, False):
            fp = signer.fingerprint if named else F('fingerprint', 20)
            own = Sig(4, 0x1f, algo, 8, [key.kid], [
                sub(12, [('k', bytes([0x80, 1])), ('c', fp)])], tag='_own')
            item = Item('key', key)
            s = Sig(4, 0x20, 1, 8, [signer.kid])
            is_ = tm.TRUE if named else same_id(
                tm.slice_(fp, const(12), const(20)), signer.kid)
            # the key may by chance have the same ID
            mine = same_id(key.kid, signer.kid)
            for own_there in (True, False):
                it = Item('key', key)
                if own_there:
                    it.packets.append(own.packet)
                one('revoker', 'algorithm %d,%s,%s' % (
                    algo, 'named' if named else 'someone',
                    'named by key' if own_there else 'not named'), it, s,
                    lambda: tm.phi(
                        mine, valid(key, s, s.octets(item)),
                        tm.and_(is_, valid(signer, s, s.octets(item))) if
                        own_there else tm.FALSE), [signer.packet()])

    # validate_signatures
    def ok(w):
        return tm.phi(w, tup(tm.TRUE, tm.FALSE, tm.FALSE), tm.FALSE)

    def many(lab, item, sigs, others, want, strict=False):
        run('marked', lab, 'validate_all', [
            tup(*item.packets), const(item.what),
            tup(*[s.packet for s in sigs]),
            tup(*[tup(k.packet()) for k in others]), const(strict)],
            lambda: tup(*want()))

    for algo in (1, 17, 20):
        key = Key(4, algo)
        db = Key(4, 1, '_signer')
        for what in ('uid', 'attribute', 'key', 'subkey'):
            for n, st in enumerate(TYPES[what]):
                item = Item(what, key, sk)
                s = Sig(4, st, algo, 8, [key.kid])
                if st == 0x20:
                    # the key is then revoked
                    run('marked', 'algorithm %d,%s type %x,own' % (
                        algo, what, st), 'marked_valid', [
                            tup(*item.packets), const(what), s.packet,
                            tm.FALSE],
                        lambda: valid(key, s, s.octets(item)))
                else:
                    many('algorithm %d,%s type %x,own' % (algo, what, st),
                         item, [s], [],
                         lambda: [ok(valid(key, s, s.octets(item)))], n == 1)
                if st in (0x20, 0x18, 0x28):
                    continue
                o = Sig(4, st, 1, 8, [other])
                many('algorithm %d,%s type %x,nobody knows' % (
                    algo, what, st), item, [o], [],
                    lambda: [tm.phi(same_id(other, key.kid),
                                    ok(valid(key, o, o.octets(item))),
                                    NONE)])
                many('algorithm %d,%s type %x,perhaps in database' % (
                    algo, what, st), item, [o], [db],
                    lambda: [tm.phi(
                        same_id(other, key.kid),
                        ok(valid(key, o, o.octets(item))),
                        tm.phi(same_id(other, db.kid),
                               ok(valid(db, o, o.octets(item))), NONE))])
                d = Sig(4, st, 1, 8, [db.kid])
                many('algorithm %d,%s type %x,in database' % (
                    algo, what, st), item, [d], [db],
                    lambda: [tm.phi(same_id(db.kid, key.kid),
                                    ok(valid(key, d, d.octets(item))),
                                    ok(valid(db, d, d.octets(item))))])
    key = Key(4, 1)
    item = Item('uid', key)
    for algo in (3, 17, 20):
        s = Sig(4, 0x13, algo, 8, [key.kid])
        many('signature algorithm %d' % algo, item, [s], [],
             lambda: [tm.FALSE])
    for algo in (0, 21, 99):
        s = Sig(4, 0x13, algo, 8, [key.kid], sizes=[('r', 159)])
        run('marked', 'unknown algorithm %d' % algo, 'marked_valid', [
            tup(*item.packets), const('uid'), s.packet, tm.TRUE],
            lambda: tm.FALSE)
    for h in (0, 4, 7, 12, 99):
        s = Sig(4, 0x13, 1, h, [key.kid])
        run('marked', 'unknown digest %d' % h, 'marked_valid', [
            tup(*item.packets), const('uid'), s.packet, tm.FALSE],
            lambda: tm.FALSE)
    for days in (1, 30000):
        old = Key(3, 1, days=days)
        it = Item('uid', old)
        s = Sig(3, 0x13, 1, 8, [old.kid])
        late = lt(tm.add(old.created, const(days * 86400)), NOW)
        many('expired after %d days' % days, it, [s], [], lambda: [tm.phi(
            valid(old, s, s.octets(it)), tup(tm.TRUE, late, tm.FALSE),
            tm.FALSE)])
    rev = Sig(4, 0x20, 1, 8, [key.kid], tag='_rev', when=1000000000)
    it = Item('uid', key)
    it.packets.insert(1, rev.packet)
    s = Sig(4, 0x13, 1, 8, [key.kid])
    many('revoked', it, [s], [], lambda: [tm.phi(
        valid(key, s, s.octets(it)), tup(tm.TRUE, tm.FALSE, tm.TRUE),
        tm.FALSE)])
    s = Sig(4, 0x13, 1, 8, [other, key.kid])
    many('second issuer', item, [s], [], lambda: [
        ok(valid(key, s, s.octets(item)))])
    s = Sig(4, 0x13, 1, 8, [])
    many('no issuer', item, [s], [], lambda: [NONE])
    a = Sig(4, 0x13, 1, 8, [key.kid], tag='_a')
    b = Sig(4, 0x10, 1, 2, [key.kid], tag='_b')
    many('two signatures', item, [a, b], [], lambda: [
        ok(valid(key, a, a.octets(item))), ok(valid(key, b, b.octets(item)))])
    for state in (True, False):
        s = Sig(4, 0x13, 1, 8, [key.kid])
        run('marked', 'already %s' % state, 'validate_again', [
            tup(*item.packets), const('uid'), s.packet, const(state)],
            lambda: const(state))
    # every part of a key
    k1 = Sig(4, 0x1f, 1, 8, [key.kid], tag='_k', when=1000000000)
    u1 = Sig(4, 0x13, 1, 8, [key.kid], tag='_u')
    a1 = Sig(4, 0x13, 1, 8, [key.kid], tag='_a')
    s1 = Sig(4, 0x18, 1, 8, [key.kid], tag='_s')
    parts = [Item('key', key), Item('uid', key), Item('attribute', key),
             Item('subkey', key, sk)]
    packets = [key.packet(), k1.packet]
    for p, s in zip(parts[1:], (u1, a1, s1)):
        packets += [p.packets[-1], s.packet]
    run('marked', 'all parts of a key', 'validate_key', [tup(*packets)],
        lambda: tup(*[ok(valid(key, s, s.octets(p)))
                      for p, s in zip(parts, (k1, u1, a1, s1))]))
