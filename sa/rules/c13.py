"""C13: type numbers and classes."""
from .. import terms as tm
from ..terms import const, mk
from .common import Run, SPEC
from . import c14, c15
from .c14 import whole
from .c15 import octets, plen, wrap

PACKETS = {
    1: 'PublicKeyEncryptedSessionKeyPacket', 2: 'SignaturePacket',
    3: 'SymmetricKeyEncryptedSessionKeyPacket', 4: 'OnePassSignaturePacket',
    5: 'SecretKeyPacket', 6: 'PublicKeyPacket', 7: 'SecretSubkeyPacket',
    8: 'CompressedDataPacket', 9: 'SymmetricallyEncryptedDataPacket',
    10: 'MarkerPacket', 11: 'LiteralDataPacket', 12: 'TrustPacket',
    13: 'UserIDPacket', 14: 'PublicSubkeyPacket', 16: 'OldCommentPacket',
    17: 'UserAttributePacket',
    18: 'SymmetricallyEncryptedAndIntegrityProtectedDataPacket',
    19: 'ModificationDetectionCodePacket', 61: 'GpgCommentPacket',
    63: 'GpgControlPacket'}
SUBPACKETS = dict(c15.NAMES)
S2K = {0: 'SimpleS2K', 1: 'SaltedS2K', 3: 'IteratedAndSaltedS2K',
       101: 'GnuPGS2K'}


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'kinds')
    c.rule('packet', 'every packet number is handled by the class RFC 4880 '
           '4.3 gives it, in both header formats and both readers', 150)
    c.rule('subpacket', 'every signature subpacket number is handled by the '
           'class RFC 4880 5.2.3.1 gives it', 128)
    c.rule('attribute', 'every user attribute number is handled by the class '
           'RFC 4880 5.12 gives it', 256)
    c.rule('transform', 'every passphrase transform number is handled by the '
           'class RFC 4880 3.7.1 gives it, others are an error', 256)
    c.rule('opaque', 'an item with an unrecognised number keeps its number '
           'and content', 150)
    c.rule('number', 'an object writes the number it was read with', 150)

    def drive(rule, key, fn, args, want):
        def go():
            a = Run(c, sp, fn, args)
            c.same(rule, key, a.value, want, a.where)
        c.guard(rule, key, go)
    yes = const(True)
    first = {}
    for ty, label, parts, f in c14.bodies('quick'):
        first.setdefault(ty, []).append((label, parts))
    for n in range(1, 64):
        bodies = first.get(n, [])[:3]
        known = n in PACKETS
        if not known:
            bodies = [('%d octets' % k, [octets('x', k)] if k else [])
                      for k in (0, 1, 40, 300)]
        for label, parts in bodies:
            for new in (True, False):
                if not new and n > 15:
                    continue
                key = '%d/%s%s' % (n, label, '' if new else '/old')
                w = tm.bseq(whole(n, parts, new))
                if known:
                    for fn in ('packet', 'stream'):
                        drive('packet', key + '/' + fn, fn, [
                            w, const(PACKETS[n])],
                            mk('tuple', const(n), yes))
                else:
                    drive('packet', key, 'packet', [w, const('Packet')],
                          mk('tuple', const(n), yes))
                drive('number' if known else 'opaque', key, 'octets', [w],
                      mk('tuple', tm.length(w), w))
                drive('number' if known else 'opaque', key + '/stream',
                      'stream_octets', [w], w)
    shapes = {}
    for ty, label, parts in c15.shapes('quick'):
        shapes.setdefault(ty, []).append((label, parts))
    for n in range(128):
        known = n in SUBPACKETS
        ss = shapes.get(n, [])[:2]
        if not known:
            ss = [('%d octets' % k, [octets('x', k)] if k else [])
                  for k in (0, 1, 30, 200)]
        for label, parts in ss:
            for crit in (False, True):
                key = '%s/%s%s' % (SUBPACKETS.get(n, n), label,
                                   '/critical' if crit else '')
                w = tm.bseq(wrap(n, crit, parts))
                name = SUBPACKETS[n] + 'Subpacket' if known else \
                    'SignatureSubpacket'
                drive('subpacket', key, 'subpacket', [w, const(name)],
                      mk('tuple', const(n), const(crit), yes))
                drive('number' if known else 'opaque', 'subpacket ' + key,
                      'sub_octets', [w], mk('tuple', tm.length(w), w))
    for n in range(256):
        if n == 1:
            parts = [('k', bytes([16, 0, 1, 1]) + bytes(12)),
                     octets('img', 30)]
        else:
            parts = [octets('x', 30)]
        from .c12 import sub_len
        w = tm.bseq([('k', sub_len(plen(parts) + 1) + bytes([n]))] + parts)
        drive('attribute', str(n), 'attribute', [w, const(
            'ImageAttributeSubpacket' if n == 1 else
            'UserAttributeSubpacket')], mk('tuple', const(n), yes))
        drive('number' if n == 1 else 'opaque', 'attribute %d' % n,
              'attr_octets', [w], mk('tuple', tm.length(w), w))
    salt = tm.fixed('salt', 'bytes', 8)
    spec = {0: [('k', b'\0\2')], 1: [('k', b'\1\2'), ('c', salt)],
            3: [('k', b'\3\2'), ('c', salt), ('k', b'\x60')],
            101: [('k', b'\x65\2GNU\1')]}
    for n in range(256):
        if n in spec:
            w = tm.bseq(spec[n])
            drive('transform', str(n), 'transform', [w, const(S2K[n])], yes)
            drive('number', 'transform %d' % n, 'transform_octets', [w],
                  mk('tuple', tm.length(w), w))
            continue

        def go(n=n):
            a = Run(c, sp, 'transform_octets', [tm.bseq([
                ('k', bytes([n, 2])), ('c', salt), ('k', b'\x60')])])
            if a.value.op == 'noreturn':
                c.ob('transform', str(n), True, 'always raises', a.where)
            elif a.value.op == 'tuple':
                c.ob('transform', str(n), False, 'accepted as %s' % tm.show(
                    a.value, 5), a.where)
            else:
                c.ob('transform', str(n), None, tm.show(a.value, 5), a.where)
        c.guard('transform', str(n), go)
    # sequences
    c.rule('sequence', 'a sequence of packets is read as those packets, in '
           'order', 3)
    one = [(n, first[n][0][1]) for n in (13, 6, 12, 11)]
    for lab, sel in (('four kinds', one), ('reversed', one[::-1]),
                     ('unknown between', [one[0], (60, [octets('x', 9)]),
                                          one[1]])):
        ws = [tm.bseq(whole(n, parts)) for n, parts in sel]
        drive('sequence', lab, 'several', [tm.bseq([('c', w) for w in ws])],
              mk('tuple', *[mk('tuple', const(n), w)
                            for (n, p), w in zip(sel, ws)]))
