"""C16: equality of packets and subpackets covers every field."""
from .. import terms as tm
from ..terms import const
from .common import Run, SPEC
from . import c14, c15
from .c14 import KINDS, whole
from .c15 import wrap, plen


def variants(parts):
    """(label, parts, parts) pairs differing in one octet or one number."""
    for i, p in enumerate(parts):
        if p[0] == 'c' and p[1].op == 'fixed':
            n = p[1].args[2]
            name = p[1].args[0]
            for pos in sorted({0, n // 2, n - 1}):
                def at(v):
                    out = []
                    if pos:
                        out.append(('c', tm.fixed(name + '<', 'bytes', pos)))
                    out.append(('k', bytes([v])))
                    if n - pos - 1:
                        out.append(('c', tm.fixed(name + '>', 'bytes',
                                                  n - pos - 1)))
                    return parts[:i] + out + parts[i + 1:]
                yield '%s[%d]' % (name, pos), at(0x31), at(0x32)
        elif p[0] == 'be' and p[2].op == 'exactint':
            name, bits = p[2].args
            if bits < 3:
                continue
            top = 1 << (bits - 1)

            def num(v):
                return parts[:i] + [('be', p[1], const(v))] + parts[i + 1:]
            for lab, v in (('low', 1), ('high', top >> 1)):
                yield '%s %s bit' % (name, lab), num(top), num(top + v)


def constants(parts, most=24):
    """(label, parts) with one of the literal octets changed.  Bit counts of
    numbers are left alone: another count may denote the same number."""
    for i, p in enumerate(parts):
        if p[0] != 'k':
            continue
        n = len(p[1])
        if i + 1 < len(parts) and parts[i + 1][0] == 'be':
            n -= 2
        for j in range(min(n, most)):
            for flip in (1, 2, 8):
                b = bytearray(p[1])
                b[j] ^= flip
                yield '%d.%d^%d' % (i, j, flip), parts[:i] + [
                    ('k', bytes(b))] + parts[i + 1:]
        if most < 24:
            break               # lengths follow: other octets, other layout


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'equal')
    c.rule('literal', 'two packets or subpackets that differ in one octet '
           'that selects a version, type, algorithm or layout compare '
           'unequal, or one of them is rejected', 100)
    c.rule('different', 'two packets or subpackets whose octets differ in '
           'one field compare unequal whatever the other octets are', 400)
    c.rule('kind', 'two packets or subpackets of different kinds, versions '
           'or layouts compare unequal', 200)
    c.rule('same', 'two packets or subpackets parsed from the same octets '
           'compare equal and have equal hashes', 150)

    def drive(rule, key, fn, x, y, want):
        def go():
            a = Run(c, sp, fn, [tm.bseq(x), tm.bseq(y)])
            c.same(rule, key, a.value, const(want), a.where)
        c.guard(rule, key, go)

    def unlike(key, fn, x, y):
        def go():
            a = Run(c, sp, fn, [tm.bseq(x), tm.bseq(y)])
            if a.value.op == 'noreturn' or a.value is const(False):
                return c.ob('literal', key, True, '', a.where)
            c.same('literal', key, a.value, const(False), a.where)
        c.guard('literal', key, go)

    seen = {}
    lits = {}
    prev = None
    for ty, label, parts, f in c14.bodies('quick'):
        n = seen.get(ty, 0)
        seen[ty] = n + 1
        big = ty in (3, 5, 7, 11)
        key = '%s/%s' % (KINDS[ty], label)
        w = whole(ty, parts)
        if n < 12 or n % 5 == 0:
            drive('same', key, 'packets', w, w, True)
        if prev is not None and plen(prev[2]) < 5000 and plen(parts) < 5000:
            drive('kind', '%s != %s' % (prev[0], key), 'packets',
                  prev[1], w, False)
        prev = key, w, parts
        if n == 0 and ty < 16:
            drive('kind', key + ' old format', 'packets', w,
                  whole(ty, parts, False), False)
        if n < (4 if big else 12) or n % (25 if big else 6) == 0:
            for lab, x, y in variants(parts):
                drive('different', '%s/%s' % (key, lab), 'packets',
                      whole(ty, x), whole(ty, y), False)
        if n == 0 or label.split(',')[0] not in lits.setdefault(ty, set()):
            lits.setdefault(ty, set()).add(label.split(',')[0])
            if len(lits[ty]) < 6 and plen(parts) < 3000 and ty != 17:
                for lab, x in constants(parts, 4 if ty == 2 else 24):
                    unlike('%s/%s' % (key, lab), 'packets', w,
                           whole(ty, x))
    for ty in (20, 40, 60, 62):
        x = [('k', b'\1\2'), ('c', tm.fixed('x', 'bytes', 3))]
        drive('same', 'unknown %d' % ty, 'packets', whole(ty, x),
              whole(ty, x), True)
        drive('kind', 'unknown %d' % ty, 'packets', whole(ty, x),
              whole(ty + 1 if ty != 60 else 59, x), False)
        for lab, a, b in variants(x):
            drive('different', 'unknown %d/%s' % (ty, lab), 'packets',
                  whole(ty, a), whole(ty, b), False)
    # same-layout packets of different kinds
    pub = c14.bodies('quick')
    for a, b in ((6, 14), (5, 7), (61, 16), (9, 13), (19, 9)):
        x = [p for t, l, p, f in pub if t == a][0]
        drive('kind', '%s != %s' % (KINDS[a], KINDS[b]), 'packets',
              whole(a, x), whole(b, x), False)
    # signature packets with the same subpackets in the other area
    h2 = tm.fixed('hash2', 'bytes', 2)
    s1 = wrap(2, False, [('c', tm.fixed('t', 'bytes', 4))])
    m, _ = c14.mpi('m', 64)

    def sig(h, u):
        return whole(2, [('k', bytes([4, 0, 1, 8]) + plen(h).to_bytes(
            2, 'big'))] + h + [('k', plen(u).to_bytes(2, 'big'))] + u +
            [('c', h2)] + m)
    drive('kind', 'Signature hashed != unhashed', 'packets', sig(s1, []),
          sig([], s1), False)
    drive('kind', 'Signature critical != not critical', 'packets',
          sig(s1, []), sig(wrap(2, True, s1[1:]), []), False)
    drive('kind', 'Signature one MPI != two', 'packets', whole(
        2, [('k', bytes([4, 0, 17, 8, 0, 0, 0, 0])), ('c', h2)] + m),
        whole(2, [('k', bytes([4, 0, 17, 8, 0, 0, 0, 0])), ('c', h2)] + m +
              m), False)

    prev = None
    for ty, label, parts in c15.shapes('quick'):
        if label.startswith('value') and label not in (
                'value0', 'value1', 'value00', 'value01', 'value02',
                'value80', 'value40'):
            continue
        if plen(parts) > 600:
            continue
        key = '%s/%s' % (c15.NAMES.get(ty, ty), label)
        w = wrap(ty, False, parts)
        drive('same', key, 'subpackets', w, w, True)
        drive('same', key + '/hash', 'hashes', w, w, True)
        drive('kind', key + ' critical', 'subpackets', w,
              wrap(ty, True, parts), False)
        if prev:
            drive('kind', '%s != %s' % (prev[0], key), 'subpackets',
                  prev[1], w, False)
        prev = key, w
        for lab, x, y in variants(parts):
            drive('different', '%s/%s' % (key, lab), 'subpackets',
                  wrap(ty, False, x), wrap(ty, False, y), False)
        if plen(parts) < 100:
            for lab, x in constants(parts, 4 if ty == 32 else 24):
                unlike('%s/%s' % (key, lab), 'subpackets', w,
                       wrap(ty, False, x))
    img = lambda fmt: [('k', bytes([16, 0, 1, fmt]) + bytes(12)),
                       ('c', tm.fixed('img', 'bytes', 40))]
    for lab, x, y in variants(img(1)):
        drive('different', 'image/' + lab, 'attributes', wrap(1, False, x),
              wrap(1, False, y), False)
    drive('kind', 'image encoding', 'attributes', wrap(1, False, img(1)),
          wrap(1, False, img(2)), False)
    drive('same', 'image', 'attributes', wrap(1, False, img(1)),
          wrap(1, False, img(1)), True)
    unk = [('c', tm.fixed('x', 'bytes', 12))]
    drive('same', 'attribute 100', 'attributes', wrap(100, False, unk),
          wrap(100, False, unk), True)
    drive('kind', 'attribute 100 != 101', 'attributes', wrap(100, False, unk),
          wrap(101, False, unk), False)
    for lab, x, y in variants(unk):
        drive('different', 'attribute 100/' + lab, 'attributes',
              wrap(100, False, x), wrap(100, False, y), False)
