"""C20: ASCII armor."""
import base64

from .. import terms as tm
from ..sigmodel import F
from ..terms import const, cval, is_const, mk
from .common import Run, SPEC

TYPES = {1: 'PGP MESSAGE', 2: 'PGP PUBLIC KEY BLOCK',
         3: 'PGP PRIVATE KEY BLOCK', 4: 'PGP SIGNATURE'}
KEYS = ('Version', 'Comment', 'MessageID', 'Hash', 'Charset')
NO = const('no')


def crc(d):
    r = 0xb704ce
    for b in d:
        r ^= b << 16
        for i in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= 0x1864cfb
    return r


def octets(n):
    return bytes((i * 73 + n * 31 + 200) % 256 for i in range(n))


def b64(x):
    return base64.b64encode(x).decode()


def text(kind, d, headers=(), part=None, check=None, tail=None, width=64,
         cut=None):
    name = TYPES[kind] + (', PART ' + part if part else '')
    b = b64(d)
    ls = ['-----BEGIN %s-----' % name]
    ls += ['%s: %s' % h for h in headers]
    ls.append('')
    ls += [b[i:i + width] for i in range(0, len(b), width)]
    ls.append('=' + b64(crc(d).to_bytes(3, 'big') if check is None else check))
    ls.append('-----END %s-----' % name if tail is None else tail)
    if cut:
        ls = ls[:cut]
    return '\n'.join(ls) + '\n'


def lit(x):
    if isinstance(x, tuple):
        return mk('tuple', *map(lit, x))
    return const(x)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'armors')
    c.rule('crc', 'the checksum written is the CRC-24 of the octets', 256)
    c.rule('write', 'armor consists of header line, headers, blank line, '
           'base64 body, checksum and tail line', 50)
    c.rule('read', 'reading gives type, octets and headers', 50)
    c.rule('checksum', 'armor whose checksum is not that of its octets is '
           'refused', 48)
    c.rule('frame', 'armor whose tail line is missing or names another type '
           'is refused', 20)
    c.rule('again', 'what is written reads back the same', 30)

    for v in range(256):
        written(c, sp, 2, bytes([v]), (None,) * 5, rule='crc')
    sizes = [0, 1, 2, 3, 4, 5, 53, 54, 55, 107, 108, 109, 162, 200]
    if c.tier == 'thorough':
        sizes = range(0, 330)
    some = ('v 1', 'a: b', 'mid', 'SHA1,MD5', 'utf-8')
    for kind in TYPES:
        for n in sizes:
            written(c, sp, kind, octets(n), (None,) * 5)
            reading(c, sp, kind, octets(n), ())
            again(c, sp, kind, octets(n), None, None, some)
        for m in range(32) if c.tier == 'thorough' else (
                1, 2, 4, 8, 16, 31, 21, 10):
            vs = tuple(x if m & (1 << i) else None
                       for i, x in enumerate(some))
            written(c, sp, kind, octets(20), vs)
            reading(c, sp, kind, octets(20), tuple(
                (k, v) for k, v in zip(KEYS, vs) if v is not None))
            again(c, sp, kind, octets(20), None, None, vs)
    for part, a, b in (('1', 1, None), ('12', 12, None), ('2/3', 2, 3),
                       ('10/11', 10, 11)):
        written(c, sp, 1, octets(20), (None,) * 5, part, a, b)
        reading(c, sp, 1, octets(20), (), part, a, b)
        again(c, sp, 1, octets(20), a, b, (None,) * 5)
    extras(c, sp)
    for kind in TYPES:
        for n in (0, 1, 20, 70):
            d = octets(n)
            good = crc(d)
            for i in range(24):
                if n != 20 and i % 5:
                    continue
                refused(c, sp, 'checksum', 'type %d,%d octets,bit %d' % (
                    kind, n, i), text(kind, d, check=(
                        good ^ (1 << i)).to_bytes(3, 'big')))
            if n:
                bad = bytes([d[0] ^ 1]) + d[1:]
                refused(c, sp, 'checksum', 'type %d,%d octets,first octet' % (
                    kind, n), text(kind, bad, check=good.to_bytes(3, 'big')))
                bad = d[:-1] + bytes([d[-1] ^ 128])
                refused(c, sp, 'checksum', 'type %d,%d octets,last octet' % (
                    kind, n), text(kind, bad, check=good.to_bytes(3, 'big')))
                refused(c, sp, 'checksum', 'type %d,%d octets,short' % (
                    kind, n), text(kind, d[:-1], check=good.to_bytes(
                        3, 'big')))
            for i, x in enumerate((d + b'\0', b'\0' + d, d + b'\r\n', d + d,
                                   d[1:], d + b' ', d + b'\xff')):
                if crc(x) != good:
                    refused(c, sp, 'checksum', 'type %d,%d octets,other %d' % (
                        kind, n, i), text(kind, x, check=good.to_bytes(
                            3, 'big')))
                reading(c, sp, kind, x, ())
            for init in (0, 0xffffff):
                if init != good:
                    refused(c, sp, 'checksum', 'type %d,%d octets,%06x' % (
                        kind, n, init), text(kind, d, check=init.to_bytes(
                            3, 'big')))
        symbolic(c, sp, kind)
        d = octets(30)
        for other in TYPES:
            if other != kind:
                refused(c, sp, 'frame', 'types %d,%d' % (kind, other), text(
                    kind, d, tail='-----END %s-----' % TYPES[other]))
        for lab, t in (
                ('begin', '-----BEGIN %s-----' % TYPES[kind]),
                ('empty', ''), ('dashes', '-----END -----'),
                ('words', 'END ' + TYPES[kind]), ('other', 'text'),
                ('data', b64(d))):
            refused(c, sp, 'frame', 'type %d,tail %s' % (kind, lab),
                    text(kind, d, tail=t))
        for n in range(1, 5):
            refused(c, sp, 'frame', 'type %d,%d lines' % (kind, n),
                    text(kind, d, cut=n) if n < 4 else
                    text(kind, d, cut=-1))
        tails(c, sp, kind)
    for h in ('-----BEGIN PGP THING-----', '-----BEGIN PGP MESSAGE',
              'PGP MESSAGE', '-----END PGP MESSAGE-----',
              '-----BEGIN PGP-----'):
        t = text(1, octets(9)).replace('-----BEGIN PGP MESSAGE-----', h)
        refused(c, sp, 'frame', 'header ' + h, t)


def written(c, sp, kind, d, vs, part=None, a=None, b=None, rule='write'):
    lab = 'type %d,%d octets,%s%s%s' % (
        kind, len(d), ','.join(k for k, v in zip(KEYS, vs) if v),
        part or '', ',%02x' % d[0] if rule == 'crc' else '')

    def go():
        r = Run(c, sp, 'write', [lit(x) for x in (kind, d, a, b) + vs +
                                 (None,)])
        bad = None
        if r.accept is tm.FALSE:
            return c.ob(rule, lab, False, 'writing fails', r.where)
        if not is_const(r.value) or not isinstance(cval(r.value), str) or \
                r.accept is not tm.TRUE:
            return c.ob(rule, lab, None, 'the text is not known: %s' %
                        tm.show(r.value, 4)[:200], r.where)
        ls = cval(r.value).splitlines()
        name = TYPES[kind] + (', PART ' + part if part else '')
        n = ls.index('') if '' in ls else 0
        i = [j for j, x in enumerate(ls) if x[:1] == '=' and j > n]
        if ls[0] != '-----BEGIN %s-----' % name:
            bad = 'header line %r' % ls[0]
        elif not n:
            bad = 'no blank line after the headers'
        elif sorted(ls[1:n]) != sorted('%s: %s' % (k, v) for k, v in zip(
                KEYS, vs) if v is not None):
            bad = 'headers %r' % (ls[1:n],)
        elif len(i) != 1:
            bad = 'no checksum line'
        elif ''.join(ls[n + 1:i[0]]) != b64(d):
            bad = 'the body is not the base64 of the octets'
        elif any(len(x) > 76 for x in ls[n + 1:i[0]]):
            bad = 'a body line has more than 76 characters'
        elif ls[i[0]] != '=' + b64(crc(d).to_bytes(3, 'big')):
            bad = 'checksum %s instead of %s' % (
                ls[i[0]], '=' + b64(crc(d).to_bytes(3, 'big')))
        elif [x for x in ls[i[0] + 1:] if x] != ['-----END %s-----' % name]:
            bad = 'tail line %r' % (ls[i[0] + 1:],)
        c.ob(rule, lab, bad is None, bad or '', r.where)
    c.guard(rule, lab, go)


def reading(c, sp, kind, d, headers, part=None, a=None, b=None):
    for width in (64, 72, 76):
        lab = 'type %d,%d octets %06x,%s%s,width %d' % (
            kind, len(d), crc(d), ','.join(k for k, v in headers), part or '', width)

        def go(width=width, lab=lab):
            r = Run(c, sp, 'read', [const(text(kind, d, headers, part,
                                               width=width))])
            h = dict(headers)
            want = lit((kind, d, a, b) + tuple(h.get(k) for k in KEYS))
            c.same('read', lab, tm.phi(r.accept, r.value, NO), want, r.where)
        c.guard('read', lab, go)


def again(c, sp, kind, d, a, b, vs):
    lab = 'type %d,%d octets,%s,%s,%s' % (
        kind, len(d), ','.join(k for k, v in zip(KEYS, vs) if v), a, b)

    def go():
        args = (kind, d, a, b) + vs
        r = Run(c, sp, 'again', [lit(x) for x in args])
        c.same('again', lab, tm.phi(r.accept, r.value, NO), lit(args),
               r.where)
    c.guard('again', lab, go)


def extras(c, sp):
    for kind in TYPES:
        for headers in ((('X-One', 'some: text'),),
                        (('Version', 'v'), ('X-One', '1'), ('Y', '2'))):
            lab = 'type %d,%s' % (kind, ','.join(k for k, v in headers))

            def go():
                for k, v in headers:
                    if k in KEYS:
                        continue
                    r = Run(c, sp, 'extra', [const(text(
                        kind, octets(9), headers)), const(k)])
                    c.same('read', lab + ',other', tm.phi(
                        r.accept, r.value, NO), const(v), r.where)
                    x = tuple((k, v) for k, v in headers if k not in KEYS)
                    r = Run(c, sp, 'again_extra', [
                        const(kind), const(octets(9)), lit(x), const(k)])
                    c.same('again', lab + ',other', tm.phi(
                        r.accept, r.value, NO), const(v), r.where)
            c.guard('again', lab, go)


def refused(c, sp, rule, lab, t):
    def go():
        for fn in ('read', 'octets'):
            r = Run(c, sp, fn, [const(t)])
            c.same(rule, lab + ',' + fn, r.accept, tm.FALSE, r.where)
    c.guard(rule, lab, go)


def symbolic(c, sp, kind):
    """Any checksum."""
    lab = 'type %d,any checksum' % kind

    def go():
        d = octets(17)
        mark = b'\x01\x02\x03'
        s = F('sum', 3)

        def decode(ip, name, args, kw, st, node):
            a = ip.snapshot(args[0], st)
            if is_const(a) and cval(a) in (b64(mark), b64(mark).encode()):
                return s
            return NotImplemented
        r = Run(c, sp, 'octets', [const(text(kind, d, check=mark))],
                intrinsics={'base64.b64decode': decode,
                            'base64.standard_b64decode': decode,
                            'binascii.a2b_base64': decode})
        c.same('checksum', lab, tm.phi(r.accept, r.value, NO), tm.phi(
            tm.cmp_('==', tm.rd(s, tm.ZERO, 3), const(crc(d))), const(d),
            NO), r.where)
    c.guard('checksum', lab, go)


def tails(c, sp, kind):
    """Any tail line."""
    lab = 'type %d,any tail' % kind

    def go():
        d = octets(17)
        t = text(kind, d)
        tail = tm.sym('tail', 'str')
        lines = [const(x) for x in t.splitlines()[:-1]] + [tail]

        def split(ip, b, args, kw, st, node):
            if is_const(b) and cval(b) == t and not kw and (
                    not args or is_const(args[0]) and cval(args[0]) == '\n'):
                return ip.new_list(st, list(lines))
            return NotImplemented
        r = Run(c, sp, 'octets', [const(t)], intrinsics={
            '.splitlines': split, '.split': split})
        good = const('-----END %s-----' % TYPES[kind])
        # a tail accepted is the right one, up to what surrounds it
        acc = r.accept
        if acc is tm.TRUE:
            return c.ob('frame', lab, False, 'any tail line is accepted',
                        r.where)
        if acc is tm.cmp_('==', tail, good) or \
                acc is tm.cmp_('==', good, tail):
            return c.ob('frame', lab, True, '', r.where)
        c.ob('frame', lab, None, 'accepted when %s' % tm.show(acc, 5)[:200],
             r.where)
    c.guard('frame', lab, go)
