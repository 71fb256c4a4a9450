"""C02: verifying a signature with a key."""
from .. import terms as tm
from ..sigmodel import F, Item, Key, SIZE, Sig, TYPES, hexterm, sub
from ..terms import const, mk
from .common import Run, SPEC

HASHES = (1, 2, 3, 8, 9, 10, 11)
NO = const('rejected')


def tup(*a):
    return mk('tuple', *a)


def outcome(r):
    return tm.phi(r.accept, r.value, NO)


def same_id(a, b):
    return tm.cmp_('==', hexterm(a), hexterm(b))


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'sigs')
    c.rule('verify', 'verify() returns True exactly when the two check octets '
           'equal the digest and the public-key primitive, given the key, '
           'that digest and the signature values, accepts; it raises '
           'otherwise', 30)
    c.rule('issuer', 'it raises unless the signature names the key as an '
           'issuer', 6)
    c.rule('algorithm', 'it raises when the public-key algorithms differ or '
           'an algorithm is unknown', 10)

    def want(key, sig, octets):
        size = ((key.sizes[0] if key.algo in (1, 3) else
                 key.sizes[1]) + 7) // 8
        r = Run(c, sp, 'ref_accept', [
            const(key.algo), key.params, const(sig.halg), octets, sig.h2,
            tup(*sig.values), const(size)])
        return r.value

    def accepts(rule, lab, fn, args, cond):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, lab, outcome(a),
                   tm.phi(cond(), tm.TRUE, NO), a.where)
        c.guard(rule, lab, go)

    def rejects(rule, lab, fn, args):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, lab, outcome(a), NO, a.where)
        c.guard(rule, lab, go)

    thorough = c.tier == 'thorough'
    data = F('data', 40)
    sk = Key(4, 1, '_sub')
    for algo in (1, 3, 17, 20):
        for kver in (4, 3) if algo in (1, 3) else (4,):
            key = Key(kver, algo)
            for sver in (4, 3, 2):
                for what in ('uid', 'attribute', 'key', 'subkey'):
                    item = Item(what, key, sk)
                    for n, st in enumerate(TYPES[what]):
                        hs = HASHES if (what, st) == ('uid', 0x13) else (
                            HASHES[(algo + n + sver) % 7],)
                        for h in hs:
                            s = Sig(sver, st, algo, h, [key.kid])
                            accepts('verify', 'key v%d,algorithm %d,v%d,%s '
                                    'type %x,digest %d' % (
                                        kver, algo, sver, what, st, h),
                                    'verify', [tup(*item.packets),
                                               const(what), s.packet],
                                    lambda: want(key, s, s.octets(item)))
                for st in (0,):
                    s = Sig(sver, st, algo, 8, [key.kid])
                    item = Item('key', key)
                    accepts('verify', 'key v%d,algorithm %d,v%d,document' % (
                        kver, algo, sver), 'verify_document', [
                            tup(*item.packets), const('binary'), data,
                            s.packet],
                        lambda: want(key, s, tm.bseq(
                            [('c', data)] + s.trailer)))
    # subpackets in both areas
    key = Key(4, 1)
    item = Item('uid', key)
    s = Sig(4, 0x13, 1, 2, [key.kid], [sub(27, [('k', b'\3')]),
                                       sub(101, [('c', F('private', 5))])],
            [sub(101, [('c', F('other', 4))])])
    accepts('verify', 'with subpackets', 'verify', [
        tup(*item.packets), const('uid'), s.packet],
        lambda: want(key, s, s.octets(item)))

    # sizes at the octet boundaries
    for algo, bits in ((1, 1025), (1, 1017), (1, 1022), (3, 1023),
                       (1, 2048), (1, 4096)):
        key = Key(4, algo, sizes=(bits, 17))
        item = Item('uid', key)
        s = Sig(4, 0x13, algo, 8, [key.kid], sizes=[('s', bits - 9)])
        accepts('verify', 'algorithm %d,%d bits' % (algo, bits), 'verify', [
            tup(*item.packets), const('uid'), s.packet],
            lambda: want(key, s, s.octets(item)))
    for bits in (160, 161, 168, 224, 256, 159):
        key = Key(4, 17, sizes=(1024, bits, 1021, 1023))
        item = Item('uid', key)
        for h in (1, 2, 8, 10):
            s = Sig(4, 0x13, 17, h, [key.kid])
            accepts('verify', 'DSA,%d bits,digest %d' % (bits, h), 'verify', [
                tup(*item.packets), const('uid'), s.packet],
                lambda: want(key, s, s.octets(item)))

    key = Key(4, 1)
    item = Item('uid', key)
    # issuers
    other = F('issuer', 8)
    o2 = F('issuer2', 8)
    for ver in (4, 3):
        s = Sig(ver, 0x13, 1, 2, [other])
        accepts('issuer', 'v%d,any issuer' % ver, 'verify', [
            tup(*item.packets), const('uid'), s.packet],
            lambda: tm.and_(same_id(other, key.kid),
                            want(key, s, s.octets(item))))
    s = Sig(4, 0x13, 1, 2, [other, key.kid])
    accepts('issuer', 'two issuers', 'verify', [
        tup(*item.packets), const('uid'), s.packet],
        lambda: want(key, s, s.octets(item)))
    s = Sig(4, 0x13, 1, 2, [other, o2])
    accepts('issuer', 'two others', 'verify', [
        tup(*item.packets), const('uid'), s.packet],
        lambda: tm.and_(tm.or_(same_id(other, key.kid),
                               same_id(o2, key.kid)),
                        want(key, s, s.octets(item))))
    s = Sig(4, 0x13, 1, 2, [])
    rejects('issuer', 'no issuer', 'verify', [
        tup(*item.packets), const('uid'), s.packet])
    for k in (const(bytes(8)),):
        s = Sig(3, 0x13, 1, 2, [k])
        accepts('issuer', 'zero issuer', 'verify', [
            tup(*item.packets), const('uid'), s.packet],
            lambda: tm.and_(same_id(k, key.kid),
                            want(key, s, s.octets(item))))

    # algorithms
    for algo in (2, 16):
        key = Key(4, algo)
        item = Item('uid', key)
        s = Sig(4, 0x13, algo, 2, [key.kid])
        rejects('algorithm', 'key and signature %d' % algo, 'verify', [
            tup(*item.packets), const('uid'), s.packet])
    for algo in (1, 3, 17, 20):
        key = Key(4, algo)
        item = Item('uid', key)
        for a2 in (0, 1, 2, 3, 16, 17, 18, 19, 20, 21, 22, 100, 105, 255):
            if a2 == algo:
                continue
            s = Sig(4, 0x13, a2, 2, [key.kid],
                    sizes=[('r', 159), ('s', 157)])
            rejects('algorithm', 'key %d,signature %d' % (algo, a2),
                    'verify', [tup(*item.packets), const('uid'), s.packet])
        for h in (0, 4, 5, 6, 7, 12, 100, 110, 255):
            s = Sig(4, 0x13, algo, h, [key.kid])
            rejects('algorithm', 'key %d,digest %d' % (algo, h), 'verify',
                    [tup(*item.packets), const('uid'), s.packet])
