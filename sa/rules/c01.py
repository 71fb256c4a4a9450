"""C01: modification detection of encrypted data."""
from .. import terms as tm
from ..secmodel import BLOCK, MODULE, cfb
from ..sigmodel import F, whole
from ..terms import const, mk
from .common import Run, SPEC

KEYLEN = {1: 16, 2: 24, 3: 16, 4: 16, 7: 16, 8: 24, 9: 32, 10: 32, 11: 16,
          12: 24, 13: 32}


def literal(n, form='b', tag=''):
    """A literal data packet with n octets of content."""
    body = [('k', b'b\x01x\0\0\0\1'), ('c', F('data' + tag, n))] if n else [
        ('k', b'b\x01x\0\0\0\1')]
    k = 7 + n
    if form == 'old':
        head = bytes([0xac, k]) if k < 256 else b'\xad' + k.to_bytes(2, 'big')
    elif form == 'long':
        head = b'\xcb\xff' + k.to_bytes(4, 'big')
    elif k < 192:
        head = bytes([0xcb, k])
    else:
        head = bytes([0xcb, ((k - 192) >> 8) + 192, (k - 192) & 255])
    return [('k', head)] + body


def sha1(parts):
    return mk('digest', mk('alg', 'sha1'), tm.bseq(parts))


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'messages')
    c.rule('layout', 'protected data is the encryption of a random block, '
           'its last two octets, the message, D3 14 and the SHA-1 of it all',
           20)
    c.rule('accept', 'protected data decrypts exactly when the repeated '
           'octets and the code match, and to the content', 20)
    c.rule('nocode', 'protected data whose end is not a code is refused', 8)
    c.rule('plainlayout', 'unprotected data is the OpenPGP-mode encryption '
           'of the message after a random prefix', 10)
    c.rule('plain', 'unprotected data decrypts to the content', 10)
    sizes = list(range(0, 36)) + [184, 185, 300]
    if c.tier == 'thorough':
        sizes += list(range(36, 184)) + [8191 - 7, 9000]
    todo = [(9, n) for n in sizes] + [(3, n) for n in sizes[:20]]
    todo += [(a, n) for a in sorted(BLOCK) for n in (1, 6)
             if (a, n) not in todo]

    def pair(rule, lab, fn, args, accept, value, facts=()):
        def go():
            r = Run(c, sp, fn, args, facts=facts)
            if r.accept is tm.FALSE and accept is tm.FALSE:
                return c.ob(rule, lab, True, 'always raises', r.where)
            if r.value.op == 'noreturn':
                return c.same(rule, lab, r.accept, accept, r.where)
            c.same(rule, lab, tm.phi(r.accept, r.value, const('no')),
                   tm.phi(accept, value, const('no')), r.where)
        c.guard(rule, lab, go)

    for algo, n in todo:
        b = BLOCK[algo]
        lab = 'cipher %d,%d octets' % (algo, n)
        key = F('key', KEYLEN[algo])
        zero = cfb(algo, key, const(bytes(b)))
        A = const(algo)
        iv, chk, mdc = F('prefix', b), F('again', 2), F('mdc', 20)
        last = tm.slice_(iv, const(b - 2), const(b))
        rnd = F('random', b)
        rlast = tm.slice_(rnd, const(b - 2), const(b))

        # what is written
        text = [('c', F('text', n + 1))]
        run = [('c', rnd), ('c', rlast)] + text + [('k', b'\xd3\x14')]
        want = tm.strm('encrypt', zero, tm.bseq(run + [('c', sha1(run))]))
        pair('layout', lab, 'encrypted', [A, key, tm.bseq(text), tm.TRUE],
             tm.TRUE, mk('tuple', const(18), whole(18, [
                 ('k', b'\x01'), ('c', want)])))

        # what is read
        value = mk('tuple', F('data', n) if n else const(b''), const('x'))
        forms = ('new',) if n not in (5, 300) else ('new', 'old', 'long')
        for form in forms:
            msg = literal(n, form)
            run = [('c', iv), ('c', chk)] + msg + [('k', b'\xd3\x14')]
            plain = tm.bseq(run + [('c', mdc)])
            right = tm.and_(tm.cmp_('==', chk, last), tm.cmp_('==', mdc, sha1(
                [('c', iv), ('c', last)] + msg + [('k', b'\xd3\x14')])))
            pair('accept', '%s,%s' % (lab, form), 'protected',
                 [A, key, tm.strm('encrypt', zero, plain)], right, value)

        # unprotected
        if algo == 9 and n > 20 and n != 300:
            continue
        oc = mk('call', MODULE[algo] + '.new', (key, const(7)),
                (('IV', iv),))
        orr = mk('call', MODULE[algo] + '.new', (key, const(7)),
                 (('IV', rnd),))
        pair('plainlayout', lab, 'encrypted', [
            A, key, tm.bseq(text), tm.FALSE], tm.TRUE,
            mk('tuple', const(9), whole(9, [
                ('c', mk('eiv', orr, b + 2)),
                ('c', tm.strm('encrypt', orr, tm.bseq(text)))])))
        msg = literal(n)
        pair('plain', lab, 'unprotected', [A, key, tm.bseq([
            ('c', mk('eiv', oc, b + 2)),
            ('c', tm.strm('encrypt', oc, tm.bseq(msg)))])], tm.TRUE, value)

    for algo, n in ((9, 5), (9, 40), (3, 0), (3, 30), (10, 17)):
        b = BLOCK[algo]
        key = F('key', KEYLEN[algo])
        zero = cfb(algo, key, const(bytes(b)))
        iv, chk, mdc = F('prefix', b), F('again', 2), F('mdc', 20)
        last = tm.slice_(iv, const(b - 2), const(b))
        lab = 'cipher %d,%d octets' % (algo, n)
        for again in (chk, last):
            start = [('c', iv), ('c', again)] + literal(n)
            fixed = [('k', b'\xcb\x28b\x01x\0\0\0\1' + bytes(33))]
            cases = [('no code', fixed), ('no code nor packet', [
                ('k', bytes(22))]), ('two packets', literal(20, tag='2')),
                     ('code cut short', [('k', b'\xd3\x14'),
                                         ('c', F('mdc', 19))]),
                     ('octet after the code', [
                         ('k', b'\xd3\x14'), ('c', mdc), ('k', b'\0')]),
                     ('header alone', fixed + [('k', b'\xd3\x14')])]
            cases += [('header %s' % h.hex(), [('k', h), ('c', mdc)])
                      for h in (b'\xd3\x13', b'\xd3\x15', b'\xd2\x14',
                                b'\x93\x14', b'\xcb\x14', b'\xca\x14',
                                b'\xc9\x14', b'\xcc\x14')]
            for what, tail in cases:
                pair('nocode', '%s,%s%s' % (
                    lab, what, '' if again is chk else ',prefix right'),
                    'protected', [const(algo), key, tm.strm(
                        'encrypt', zero, tm.bseq(start + tail))],
                    tm.FALSE, None)
