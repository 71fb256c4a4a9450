"""Keys, signed items and signatures with symbolic contents, and the octets
RFC 4880 5.2.4 prescribes to be hashed for them."""
from . import terms as tm
from .terms import const, mk

ROLES = {1: ('n', 'e'), 2: ('n', 'e'), 3: ('n', 'e'), 16: ('p', 'g', 'y'),
         20: ('p', 'g', 'y'), 17: ('p', 'q', 'g', 'y')}
SIZE = {1: (1024, 17), 2: (1024, 17), 3: (1023, 17), 16: (1024, 3, 1021),
        20: (1024, 3, 1021), 17: (1024, 160, 1021, 1023)}
SEC = {1: ('d', 'p', 'q', 'u'), 2: ('d', 'p', 'q', 'u'),
       3: ('d', 'p', 'q', 'u'), 16: ('x',), 20: ('x',), 17: ('x',)}
SECSIZE = {'d': 1021, 'p': 512, 'q': 511, 'u': 509, 'x': 158}
# constructor arguments, in pycrypto's order
ORDER = {1: ('n', 'e'), 2: ('n', 'e'), 3: ('n', 'e'),
         16: ('p', 'g', 'y'), 20: ('p', 'g', 'y'), 17: ('y', 'g', 'p', 'q')}


def F(n, k):
    return tm.fixed(n, 'bytes', k) if k else const(b'')


def mpi(name, bits):
    x = tm.exactint(name, bits)
    return [('k', bits.to_bytes(2, 'big')), ('be', (bits + 7) // 8, x)], x


def plen(parts):
    return int(tm.cval(tm.length(tm.bseq(parts))))


def octet_sum(t, n):
    if n >= 64:
        return mk('bytesum', t)
    s = const(0)
    for i in range(n):
        s = tm.add(s, tm.item(t, const(i)))
    return s


def whole(ty, parts):
    """A new-format packet."""
    n = plen(parts)
    if n < 192:
        h = bytes([0xc0 + ty, n])
    elif n < 8384:
        h = bytes([0xc0 + ty, ((n - 192) >> 8) + 192, (n - 192) & 255])
    else:
        h = bytes([0xc0 + ty, 255]) + n.to_bytes(4, 'big')
    return tm.bseq([('k', h)] + parts)


def sub(ty, parts, critical=False):
    n = plen(parts) + 1
    h = bytes([n]) if n < 192 else bytes([255]) + n.to_bytes(4, 'big')
    return [('k', h + bytes([ty + (128 if critical else 0)]))] + list(parts)


def hexterm(t):
    from .interp import hexoctet
    s = const('')
    for i in range(int(tm.cval(tm.length(t)))):
        s = tm.strcat(s, hexoctet(tm.item(t, const(i))))
    return s


class Key(object):
    def __init__(self, version=4, algo=1, tag='', sizes=None, days=None,
                 when=None):
        self.version, self.algo = version, algo
        self.sizes = sizes or SIZE[algo]
        t = F('created' + tag, 4)
        self.created = tm.rd(t, tm.ZERO, 4) if when is None else const(when)
        p = [('k', bytes([version])), ('c', t) if when is None else
             ('k', when.to_bytes(4, 'big'))]
        if version < 4:
            p.append(('k', (days or 0).to_bytes(2, 'big')))
        p.append(('k', bytes([algo])))
        self.vals = {}
        for n, k in zip(ROLES[algo], sizes or SIZE[algo]):
            q, x = mpi(n + tag, k)
            p += q
            self.vals[n] = x
        self.body = p
        self.secvals = {}
        sec = []
        for n in SEC[algo]:
            q, x = mpi('secret_' + n + tag, SECSIZE[n])
            sec += q
            self.secvals[n] = x
        s = octet_sum(tm.bseq(sec), plen(sec))
        self.secbody = p + [('k', b'\0')] + sec + [
            ('be', 2, tm.bits(s, 0, 16))]
        # what a signature over the key hashes
        self.octets = [('k', b'\x99' + plen(p).to_bytes(2, 'big'))] + p
        if version >= 4:
            self.fingerprint = mk('digest', mk('alg', 'sha1'),
                                  tm.bseq(self.octets))
            self.kid = tm.slice_(self.fingerprint, const(12), const(20))
        else:
            n = tm.bseq(p)
            k = (SIZE[algo][0] + 7) // 8
            off = plen(p) - (k + 2 + (SIZE[algo][1] + 7) // 8 + 2) + 2
            self.kid = tm.slice_(n, const(off + k - 8), const(off + k))

    @property
    def params(self):
        return mk('tuple', *[self.vals[n] for n in ORDER[self.algo]])

    def packet(self, kind='public'):
        """kind: public, secret, subkey, secret subkey"""
        ty = {'public': 6, 'secret': 5, 'subkey': 14, 'secret subkey': 7}[kind]
        return whole(ty, self.secbody if 'secret' in kind else self.body)


UID = [('k', 'caf\u00e9 <a@b>'.encode('utf8'))]
ATTR = [('k', b'\x17\x01\x10\x00\x01\x01' + bytes(12)), ('c', F('img', 6))]


class Item(object):
    """Something a signature can be made over: packets, the name of the part
    of the key, and the octets hashed before the trailer."""

    def __init__(self, what, key, other=None, secret=False, data=None,
                 body=None):
        self.what = what
        self.body = body or (UID if what == 'uid' else ATTR)
        pk = key.packet('secret' if secret else 'public')
        self.packets = [pk]
        self.key = key
        self.data = data
        if what == 'uid':
            self.packets.append(whole(13, self.body))
        elif what == 'attribute':
            self.packets.append(whole(17, self.body))
        elif what == 'subkey':
            self.packets.append(other.packet(
                'secret subkey' if secret else 'subkey'))
        self.other = other

    def octets(self, version):
        k = list(self.key.octets)
        if self.what == 'key':
            return k
        if self.what == 'subkey':
            return k + self.other.octets
        b = self.body
        if version >= 4:
            k.append(('k', (b'\xb4' if self.what == 'uid' else b'\xd1') +
                      plen(b).to_bytes(4, 'big')))
        return k + b


TYPES = {'uid': (0x10, 0x11, 0x12, 0x13, 0x30), 'attribute': (0x13, 0x30),
         'key': (0x1f, 0x20), 'subkey': (0x18, 0x28)}


class Sig(object):
    """A signature: packet, octets of the trailer, signature values."""

    def __init__(self, version, kind, algo, halg, kids, hashed=(),
                 unhashed=(), tag='', sizes=None, when=None, keysize=None):
        self.version, self.kind, self.algo, self.halg = \
            version, kind, algo, halg
        t = F('made' + tag, 4)
        ct = ('c', t) if when is None else ('k', when.to_bytes(4, 'big'))
        self.created = tm.rd(t, tm.ZERO, 4) if when is None else const(when)
        self.h2 = F('check' + tag, 2)
        m, self.values = [], []
        for n, k in sizes or (
                [('s', SIZE[algo][0] - 3)] if algo in (1, 2, 3) else
                [('r', 159), ('s', 157)]):
            q, x = mpi('sig_' + n + tag, k)
            m += q
            self.values.append(x)
        tail = [('c', self.h2)] + m
        if version < 4:
            self.hashed_area = []
            p = [('k', bytes([version, 5, kind])), ct, ('c', kids[0]),
                 ('k', bytes([algo, halg]))]
            self.trailer = [('k', bytes([kind])), ct]
        else:
            h = sub(2, [ct])
            for x in hashed:
                h += x
            self.hashed_area = h
            k = sum((list(x) for x in hashed), [])
            # the same without the creation time
            self.reduced = [('k', bytes([version, kind, algo, halg]) +
                             plen(k).to_bytes(2, 'big'))] + k + [
                                 ('k', b'\0\0')] + tail
            u = []
            for k in kids:
                u += sub(16, [('c', k)])
            for x in unhashed:
                u += x
            head = [('k', bytes([version, kind, algo, halg]) +
                     plen(h).to_bytes(2, 'big'))] + h
            p = head + [('k', plen(u).to_bytes(2, 'big'))] + u
            self.trailer = head + [
                ('k', bytes([version, 255]) + plen(head).to_bytes(4, 'big'))]
            # as hashed when this signature is itself signed
            self.without = head + [('k', b'\0\0')] + tail
        if version < 4:
            self.without = p + tail
        self.body = p + tail
        self.packet = whole(2, self.body)

    def octets(self, item):
        return tm.bseq(item.octets(self.version) + self.trailer)
