"""C26: policy for imported public key data."""
from .. import terms as tm
from ..sigmodel import F, Sig, sub
from ..terms import const, mk
from .common import Run, SPEC

NO = const('no')
KNOWN = (2, 3, 4, 5, 6, 7, 9, 11, 12, 16, 20, 21, 22, 23, 24, 25, 26, 27, 28,
         29, 30, 31, 32)
# data for subpackets of known types
DATA = {2: bytes(3) + b'\1', 3: bytes(3) + b'\1', 4: b'\1', 5: b'\1\x3c',
        7: b'\1', 9: bytes(3) + b'\1', 11: b'\x09\x08',
        12: b'\x80\x01' + bytes(20), 16: b'\1\2\3\4\5\6\7\x08',
        21: b'\2\x08', 22: b'\2\1', 23: b'\x80', 24: b'hkp://x', 25: b'\1',
        26: b'http://x', 27: b'\3', 28: b'me', 29: b'\0why', 30: b'\1',
        31: b'\1\2' + bytes(20)}


def lit(x):
    if isinstance(x, (list, tuple)):
        return mk('tuple', *map(lit, x))
    return x if isinstance(x, tm.T) else const(x)


def note(flags, name=b'a@b', value=b'v'):
    return bytes([flags >> 24, flags >> 16 & 255, flags >> 8 & 255,
                  flags & 255]) + len(name).to_bytes(2, 'big') + len(
                      value).to_bytes(2, 'big') + name + value


def check(c):
    c.maxrec = 3
    sp = SPEC(c, 'imports')
    c.rule('critical', 'a signature with a critical subpacket of unknown type '
           'is not kept', 100)
    c.rule('notation', 'a signature with a critical notation is not kept', 20)
    c.rule('local', 'a signature marked local is not kept', 10)
    c.rule('kept', 'other signatures are kept, and so is the rest of the key',
           100)
    unknown = [t for t in range(128) if t not in KNOWN]
    thorough = c.tier == 'thorough'
    for t in unknown:
        for hashed in (True, False):
            few = t in (0, 1, 10, 33, 40, 100, 110, 127) or thorough
            for where in ('key', 'uid', 'subkey') if few else ('uid',):
                case(c, sp, 'critical', where, [(t, True, hashed,
                                                 F('data', 4))], False)
                case(c, sp, 'kept', where, [(t, False, hashed,
                                             F('data', 4))], True)
            single(c, sp, 'critical', t, True, hashed, F('data', 4), False)
            single(c, sp, 'kept', t, False, hashed, F('data', 4), True)
            # not seen first or last only
            case(c, sp, 'critical', 'uid', [
                (2, False, True, DATA[2]), (t, True, hashed, F('data', 4)),
                (27, False, True, DATA[27])], False)
            case(c, sp, 'critical', 'uid', [
                (t, False, True, F('data', 4)),
                (t, True, hashed, F('data', 4))], False)
    for kind in (0x10, 0x11, 0x12, 0x18, 0x1f, 0x20, 0x28, 0x30):
        for where in ('key', 'uid', 'subkey'):
            for t in (10, 100):
                case(c, sp, 'critical', where, [(t, True, True, F('data', 4))],
                     False, kind)
                case(c, sp, 'kept', where, [(t, False, True, F('data', 4))],
                     True, kind)
            case(c, sp, 'notation', where, [(20, True, True, note(0))],
                 False, kind)
    for t in sorted(DATA):
        for hashed in (True, False):
            for critical in (True, False):
                case(c, sp, 'kept', 'uid', [(t, critical, hashed, DATA[t])],
                     True)
                for u in (10, 100, 127):
                    case(c, sp, 'critical', 'uid', [
                        (t, critical, hashed, DATA[t]),
                        (u, True, hashed, F('data', 4))], False)
    for flags in (0, 0x80000000, 1, 0x80000001, 0x00010000, 0x40000000):
        for hashed in (True, False):
            for name in (b'a@b', b'name', b'preferred-email@pgp.com'):
                d = note(flags, name)
                for where in ('key', 'uid', 'subkey'):
                    case(c, sp, 'notation', where, [(20, True, hashed, d)],
                         False)
                case(c, sp, 'notation', 'uid', [
                    (20, False, hashed, d), (20, True, hashed, d)], False)
                case(c, sp, 'kept', 'uid', [(20, False, hashed, d)], True)
                single(c, sp, 'notation', 20, True, hashed, const(d), False)
    for hashed in (True, False):
        for critical in (True, False):
            for kind in (0x10, 0x13, 0x18, 0x1f):
                for where in ('key', 'uid', 'subkey'):
                    d = F('flag', 1)
                    case(c, sp, 'local', where, [(4, critical, hashed, d)],
                         tm.cmp_('!=', tm.item(d, tm.ZERO), tm.ZERO), kind)
                case(c, sp, 'local', 'uid', [
                    (4, critical, hashed, b'\1'),
                    (4, critical, hashed, b'\0')], False, kind)
                case(c, sp, 'local', 'uid', [
                    (4, critical, hashed, b'\0'),
                    (4, critical, hashed, b'\1')], False, kind)
    for version in (2, 3):
        case(c, sp, 'kept', 'uid', [], True, version=version)
    objects(c, sp)


def name(subs):
    return ' '.join('%d%s%s' % (t, '!' if k else '', '' if h else '?')
                    for t, k, h, d in subs)


def case(c, sp, rule, where, subs, keep, kind=0x13, version=4):
    lab = '%s,type %02x,v%d,%s' % (where, kind, version, name(subs))
    if rule == 'notation' or subs and subs[0][0] == 20:
        lab += ',' + subs[0][3].hex()

    def go():
        r = Run(c, sp, 'imported', [const(where), const(version), const(kind),
                                    lit(subs)])
        yes, no = [mk('listv', *[('e', const(x)) for x in xs]) for xs in (
            (0x10, kind, 0x12), (0x10, 0x12))]
        k = {True: tm.TRUE, False: tm.FALSE}.get(keep, keep)
        if keep is False and rule != 'kept':
            # refusing the whole key accepts nothing either
            got = tm.phi(r.accept, r.value, no)
        else:
            got = tm.phi(r.accept, r.value, NO)
        c.same(rule, lab, got, tm.phi(k, yes, no), r.where)
    c.guard(rule, lab, go)


def single(c, sp, rule, t, critical, hashed, d, keep):
    lab = 'one,%d%s%s' % (t, '!' if critical else '', '' if hashed else '?')

    def go():
        r = Run(c, sp, 'single', [const(t), lit(critical), lit(hashed), d,
                                  const(0x13), tm.TRUE])
        c.same(rule, lab, r.accept, tm.TRUE if keep else tm.FALSE, r.where)
    c.guard(rule, lab, go)


def objects(c, sp):
    """Signature objects."""
    for hashed in (True, False):
        for critical in (True, False):
            for flags in (0, 0x80000000):
                lab = 'object,%s,%s,%08x' % (
                    'critical' if critical else 'plain',
                    'hashed' if hashed else 'unhashed', flags)

                def go(hashed=hashed, critical=critical, flags=flags,
                       lab=lab):
                    x = sub(20 | (128 if critical else 0),
                            [('k', note(flags))])
                    s = Sig(4, 0x13, 1, 2, [F('kid', 8)],
                            [x] if hashed else [], [] if hashed else [x])
                    r = Run(c, sp, 'notations', [s.packet])
                    c.same('notation', lab, tm.phi(r.accept, r.value, NO),
                           NO if critical else const(1), r.where)
                c.guard('notation', lab, go)
