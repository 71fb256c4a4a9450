"""Protected secret keys with symbolic contents."""
from . import terms as tm
from .rules.common import Run
from .sigmodel import F, SEC, SECSIZE, mpi, octet_sum, plen, whole
from .terms import const, mk

MODULE = {1: 'pgp.cipher.aidea', 2: 'Crypto.Cipher.DES3',
          3: 'Crypto.Cipher.CAST', 4: 'Crypto.Cipher.Blowfish',
          7: 'Crypto.Cipher.AES', 8: 'Crypto.Cipher.AES',
          9: 'Crypto.Cipher.AES', 10: 'pgp.cipher.twofish',
          11: 'pgp.cipher.camellia', 12: 'pgp.cipher.camellia',
          13: 'pgp.cipher.camellia'}
BLOCK = {1: 8, 2: 8, 3: 8, 4: 8, 7: 16, 8: 16, 9: 16, 10: 16, 11: 16, 12: 16,
         13: 16}
ATTRS = {'d': 'exponent_d', 'p': 'prime_p', 'q': 'prime_q',
         'u': 'multiplicative_inverse_u', 'x': 'exponent_x'}
WORD = const(' P\u00e4ss word ')


def cfb(algo, key, iv):
    """A CFB-mode cipher object working on whole blocks."""
    return mk('call', MODULE[algo] + '.new', (key, const(3)), (
        ('IV', iv), ('segment_size', const(8 * BLOCK[algo]))))


class Secret(object):
    """The secret part of a key packet.

    usage: 0, 254, 255 or a cipher number; the check octets stored are any.
    """

    def __init__(self, c, sp, version, algo, usage=254, cipher=9, s2k=3,
                 tag='', sizes=None, values=None):
        self.version, self.algo, self.usage = version, algo, usage
        self.cipher = cipher if usage in (254, 255) else usage
        self.values, self.plain = {}, []
        self.pieces = []
        for n in SEC[algo]:
            k = (sizes or SECSIZE)[n]
            q, x = mpi('secret_' + n + tag, k)
            self.values[ATTRS[n]] = x
            self.plain += q
            self.pieces.append((q, (k + 7) // 8))
        self.names = [ATTRS[n] for n in SEC[algo]]
        t = tm.bseq(self.plain)
        self.octets = t
        self.check = F('check' + tag, 20 if usage == 254 else 2)
        if usage == 254:
            self.right = tm.cmp_('==', self.check, mk(
                'digest', mk('alg', 'sha1'), t))
        else:
            self.right = tm.cmp_('==', tm.rd(self.check, tm.ZERO, 2), tm.bits(
                octet_sum(t, plen(self.plain)), 0, 16))
        head = [('k', bytes([usage]))]
        self.iv = self.key = None
        if usage:
            spec = const(None)
            if usage in (254, 255):
                salt = F('salt' + tag, 8)
                s = [('k', bytes([s2k, 8]))]
                if s2k:
                    s.append(('c', salt))
                if s2k == 3:
                    s.append(('k', b'\x00'))
                spec = tm.bseq(s)
                head += [('k', bytes([self.cipher]))] + s
            self.key = Run(c, sp, 'key_of', [
                spec, tm.ZERO, const(self.cipher), WORD]).value
            self.iv = F('iv' + tag, BLOCK[self.cipher])
            head.append(('c', self.iv))
        self.head = head
        self.stored = self.encrypt(self.plain, self.pieces)
        self.body = head + [('c', self.stored)]

    def encrypt(self, plain, pieces):
        tail = [('c', self.check)]
        if not self.usage:
            return tm.bseq(plain + tail)
        if self.version >= 4:
            return tm.strm('encrypt', cfb(self.cipher, self.key, self.iv),
                           tm.bseq(plain + tail))
        out, iv, b = [], self.iv, BLOCK[self.cipher]
        for q, n in pieces:
            e = tm.strm('encrypt', cfb(self.cipher, self.key, iv),
                        tm.bseq(q[1:]))
            out += [q[0], ('c', e)]
            iv = tm.slice_(tm.bseq([('c', iv), ('c', e)]), const(n),
                           const(n + b))
        return tm.bseq(out + tail)

    def packet(self, key, kind='secret'):
        return whole({'secret': 5, 'subkey': 7}[kind], key.body + self.body)


def reach(ip, v, heap_state, path='', seen=None, out=None):
    """(path, term) for everything reachable from v."""
    st = heap_state
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if v.op == 'obj':
        if v.args[0] in seen or v.args[0] not in st.heap:
            return out
        seen.add(v.args[0])
        o = st.heap[v.args[0]]
        for k in sorted(o.attrs):
            reach(ip, o.attrs[k], st, '%s.%s' % (path, k), seen, out)
        if o.kind in ('list', 'set'):
            for i, p in enumerate(o.parts):
                for x in p[1:]:
                    if isinstance(x, tm.T):
                        reach(ip, x, st, '%s[%d]' % (path, i), seen, out)
        elif o.kind == 'dict':
            for k, x in o.entries.items():
                if isinstance(x, tm.T):
                    reach(ip, x, st, '%s[%s]' % (path, tm.show(k, 2) if
                                                 isinstance(k, tm.T) else k),
                          seen, out)
        elif o.kind != 'inst':
            out.append((path, ip.snapshot(v, st)))
        return out
    inner = [s for s in tm.subterms(v) if s.op == 'obj']
    for s in inner:
        reach(ip, s, st, path, seen, out)
    out.append((path, v))
    return out
