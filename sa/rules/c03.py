"""C03: the octets hashed for signatures."""
from .. import terms as tm
from ..sigmodel import F, Item, Key, Sig, TYPES, plen, sub, whole
from ..terms import const, mk
from .common import Run, SPEC

ALG = {1: 'md5', 2: 'sha1', 3: 'ripemd160', 8: 'sha256', 9: 'sha384',
       10: 'sha512', 11: 'sha224'}
HASHES = (1, 2, 3, 8, 9, 10, 11)
DOC = (0, 1)


def tup(*a):
    return mk('tuple', *a)


def hashed_data(t, alg, skip=()):
    """What the digests of this kind inside a value are taken over."""
    out = []
    for s in tm.subterms(t):
        if s.op in ('digest', 'hashst') and s.args[0] is mk('alg', alg):
            d = s.args[1]
            if d not in out and d not in skip:
                out.append(d)
    return out


def trailer_of(content, version, kind, algo, halg):
    """The trailer belonging to a written signature packet, or None with the
    field that differs."""
    at = lambda lo, hi: tm.slice_(content, const(lo), const(hi))
    if version >= 4:
        head = at(0, 6)
        if not tm.is_const(head):
            return None, head
        h = bytes(tm.cval(head))
        if h[:4] != bytes([version, kind, algo, halg]):
            return None, head
        n = int.from_bytes(h[4:6], 'big')
        return [('c', at(0, 6 + n)), ('k', bytes([version, 255]) +
                                      (6 + n).to_bytes(4, 'big'))], None
    head = at(0, 3)
    if head is not const(bytes([version, 5, kind])):
        return None, head
    head = at(15, 17)
    if head is not const(bytes([algo, halg])):
        return None, head
    return [('k', bytes([kind])), ('c', at(3, 7))], None


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'sigs')
    c.rule('made', 'the digest stored and signed when a signature is made is '
           'over the item octets and the trailer of the packet written', 40)
    c.rule('verified', 'verify() digests the item octets and the trailer',
           30)
    c.rule('validated', 'validate_signature() digests the item octets and '
           'the trailer', 30)
    c.rule('packet', 'the packet layer yields the same octets', 30)
    c.rule('confirm', 'a signature over a signature digests 0x88, a '
           'four-octet length and the body with an empty unhashed area', 4)

    sk = Key(4, 1, '_sub')

    def made(rule, lab, fn, args, octets, version, kind, algo, halg, skip):
        def go():
            r = Run(c, sp, fn, args)
            if r.value.op != 'tuple' or len(r.value.args) != 3:
                if r.value.op == 'noreturn':
                    return c.ob(rule, lab, False, 'always raises', r.where)
                return c.ob(rule, lab, None, 'result not in parts', r.where)
            content, h2, values = r.value.args
            tr, bad = trailer_of(content, version, kind, algo, halg)
            if tr is None:
                return c.ob(rule, lab, False if tm.is_const(bad) else None,
                            'packet fields %s' % tm.show(bad, 4), r.where)
            want = tm.bseq(octets + tr)
            dig = mk('digest', mk('alg', ALG[halg]), want)
            c.same(rule, lab + ',check octets', h2,
                   tm.slice_(dig, tm.ZERO, const(2)), r.where)
            got = hashed_data(values, ALG[halg], skip)
            if not got:
                return c.ob(rule, lab + ',signed', None, 'no digest found',
                            r.where)
            for d in got:
                c.same(rule, lab + ',signed', d, want, r.where)
        c.guard(rule, lab, go)

    def looked(rule, lab, fn, args, want, halg, skip):
        def go():
            r = Run(c, sp, fn, args)
            got = hashed_data(r.accept, ALG[halg], skip)
            if r.value.op == 'noreturn':
                return c.ob(rule, lab, False, 'always raises', r.where)
            if not got:
                return c.ob(rule, lab, None, 'no digest found', r.where)
            for d in got:
                c.same(rule, lab, d, want, r.where)
        c.guard(rule, lab, go)

    thorough = c.tier == 'thorough'
    extra = [sub(27, [('k', b'\x0c')]), sub(101, [('c', F('private', 5))])]
    data = tm.bseq([('k', b'\xe9'), ('c', F('data', 40))])
    for algo in (1, 17, 20, 3):
        for kver in (4, 3) if algo == 1 else (4,):
            key = Key(kver, algo)
            skip = (tm.bseq(key.octets), tm.bseq(sk.octets))
            for ver in (4, 3):
                hs = HASHES if thorough else HASHES[(algo + ver) % 7::3]
                for what in ('uid', 'attribute', 'key', 'subkey'):
                    item = Item(what, key, sk, True)
                    for n, st in enumerate(TYPES[what]):
                        h = HASHES[(n + algo + ver) % 7]
                        template = Sig(4, 0x13, 1, 8, [key.kid],
                                       extra if st == 0x13 else [])
                        made('made', 'key v%d,algorithm %d,v%d,%s type %x,'
                             'digest %d' % (kver, algo, ver, what, st, h),
                             'sign', [tup(*item.packets), const(what),
                                      const(ver), const(st), const(h),
                                      whole(2, template.reduced)],
                             item.octets(ver), ver, st, algo, h, skip)
                item = Item('key', key, None, True)
                for h in hs:
                    made('made', 'key v%d,algorithm %d,v%d,octets,digest %d'
                         % (kver, algo, ver, h), 'sign_octets', [
                             tup(*item.packets), data, const(ver), const(h)],
                         [('c', data)], ver, 0, algo, h, skip)
                    made('made', 'key v%d,algorithm %d,v%d,document,digest '
                         '%d' % (kver, algo, ver, h), 'sign_document', [
                             tup(*item.packets), const('binary'), data,
                             const(ver), const(0), const(h)],
                         [('c', data)], ver, 0, algo, h, skip)

    # checked, directly and on a key
    for algo in (1, 17):
        for kver in (4, 3) if algo == 1 else (4,):
            key = Key(kver, algo)
            skip = (tm.bseq(key.octets), tm.bseq(sk.octets))
            for ver in (4, 3, 2):
                for what in ('uid', 'attribute', 'key', 'subkey'):
                    for secret in (False, True):
                        item = Item(what, key, sk, secret)
                        for n, st in enumerate(TYPES[what]):
                            if secret and n > 1:
                                continue
                            h = HASHES[(n + algo + ver) % 7]
                            s = Sig(ver, st, algo, h, [key.kid],
                                    extra, [sub(101, [('c', F('loose', 3))])])
                            lab = 'key v%d,algorithm %d,v%d,%s%s type %x,' \
                                'digest %d' % (kver, algo, ver, 'secret ' if
                                               secret else '', what, st, h)
                            for rule, fn, args in (
                                    ('verified', 'verify', []),
                                    ('validated', 'validate', [
                                        const(None), tm.sym('now', None),
                                        tm.FALSE])):
                                looked(rule, lab, fn, [
                                    tup(*item.packets), const(what),
                                    s.packet] + args, s.octets(item), h,
                                    skip)

    # unusual sizes and octets
    key = Key(4, 1)
    skip = (tm.bseq(key.octets),)
    big = 70000
    odd = [
        ('uid', 'not UTF-8', [('k', b'\xff\xc3 <\x80>')]),
        ('uid', 'empty', []),
        ('uid', '300 octets', [('k', b'u' * 300)]),
        ('uid', '66000 octets', [('k', b'u' * 66000)]),
        ('attribute', 'large', sub(1, [
            ('k', b'\x10\x00\x01\x01' + bytes(12)), ('c', F('i', big))])),
        ('attribute', 'unknown', sub(100, [('c', F('i', 7))])),
        ('attribute', 'two', sub(100, [('c', F('i', 7))]) +
         sub(1, [('k', b'\x10\x00\x01\x01' + bytes(12)),
                 ('c', F('j', 200))])),
    ]
    for what, how, body in odd:
        for ver in (4, 3):
            item = Item(what, key, None, True, body=body or [('k', b'')])
            template = Sig(4, 0x13, 1, 8, [key.kid], [
                sub(101, [('c', F('private', 300))])])
            made('made', 'v%d,%s %s' % (ver, what, how), 'sign', [
                tup(*item.packets), const(what), const(ver), const(0x13),
                const(8), whole(2, template.reduced)], item.octets(ver), ver,
                0x13, 1, 8, skip)
            s = Sig(ver, 0x13, 1, 8, [key.kid], [
                sub(101, [('c', F('private', 300))])])
            for rule, fn, args in (
                    ('verified', 'verify', []),
                    ('validated', 'validate', [
                        const(None), tm.sym('now', None), tm.FALSE])):
                looked(rule, 'v%d,%s %s' % (ver, what, how), fn, [
                    tup(*item.packets), const(what), s.packet] + args,
                    s.octets(item), 8, skip)

    # the packet layer
    for kver in (4, 3):
        key = Key(kver, 1)
        for ver in (4, 3):
            for what in ('key', 'subkey', 'uid', 'attribute'):
                item = Item(what, key, sk)
                pk = item.packets[-1]
                own = item.octets(ver)[len(key.octets) if
                                       what != 'key' else 0:]

                def octets():
                    r = Run(c, sp, 'packet_octets', [pk, const(ver)])
                    c.same('packet', 'content,key v%d,v%d,%s' % (
                        kver, ver, what), r.value, tm.bseq(own), r.where)
                c.guard('packet', 'content', octets)
                for n, st in enumerate(TYPES[what]):
                    if ver < 4 and (st == 0x1f or st > 0x20):
                        pass
                    h = HASHES[(n + ver) % 7]
                    s = Sig(ver, st, 1, h, [key.kid], extra if ver > 3
                            else [])

                    def digest():
                        r = Run(c, sp, 'packet_digest', [
                            key.packet(), pk, s.packet,
                            tm.bseq(s.hashed_area)])
                        c.same('packet', 'digest,key v%d,v%d,%s type %x' % (
                            kver, ver, what, st), r.value,
                            mk('digest', mk('alg', ALG[h]), s.octets(item)),
                            r.where)
                    c.guard('packet', 'digest', digest)
    # the second number: octets of a subpacket that fills the hashed area
    for ver, fill in ((4, 0), (3, 0), (2, 0), (4, 65516), (4, 65517),
                      (4, 65523)):
        for st in (0, 1, 2, 0x10, 0x13, 0x18, 0x1f, 0x20, 0x28, 0x30, 0x50):
            if fill and st not in (0, 0x13):
                continue
            s = Sig(ver, st, 17, 2, [F('issuer', 8)],
                    [sub(101, [('c', F('large', fill))])] if fill else extra,
                    [sub(101, [('c', F('loose', 3))])])
            key = 'trailer,v%d,type %x' % (ver, st)
            if fill:
                key += ',%d hashed octets' % plen(s.hashed_area)

            def trailer():
                r = Run(c, sp, 'packet_trailer', [s.packet])
                c.same('packet', key, r.value, tm.bseq(s.trailer), r.where)
            c.guard('packet', key, trailer)

    # signatures of signatures
    key = Key(4, 1)
    item = Item('key', key, None, True)
    skip = (tm.bseq(key.octets),)
    for over in (4, 3):
        t = Sig(over, 0x13, 17, 2, [F('issuer', 8)], extra,
                [sub(101, [('c', F('loose', 3))])], '_target')
        octets = [('k', b'\x88' + plen(t.without).to_bytes(4, 'big'))] + \
            list(t.without)

        def content():
            r = Run(c, sp, 'packet_octets', [t.packet, const(4)])
            c.same('confirm', 'content,v%d' % over, r.value,
                   tm.bseq(octets), r.where)
        c.guard('confirm', 'content', content)
        for ver in (4, 3):
            made('confirm', 'made v%d over v%d' % (ver, over),
                 'sign_signature', [tup(*item.packets), t.packet, const(ver),
                                    const(8)],
                 octets, ver, 0x50, 1, 8, skip)
            s = Sig(ver, 0x50, 1, 8, [key.kid])
            looked('confirm', 'verified v%d over v%d' % (ver, over),
                   'verify_signature', [tup(*item.packets), s.packet,
                                        t.packet],
                   tm.bseq(octets + s.trailer), 8, skip)

            def digest():
                r = Run(c, sp, 'packet_digest', [
                    key.packet(), t.packet, s.packet,
                    tm.bseq(s.hashed_area)])
                c.same('confirm', 'digest,v%d over v%d' % (ver, over),
                       r.value, mk('digest', mk('alg', 'sha256'),
                                   tm.bseq(octets + s.trailer)), r.where)
            c.guard('confirm', 'digest', digest)
