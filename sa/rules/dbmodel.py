"""Keyring operations, run against a model of the file system."""
import hashlib

from .. import terms as tm
from ..interp import Dead
from ..terms import const, mk
from .common import Run, SPEC

RING = '/home/ring.gpg'
PID = 77
FS = 'spec.rings:FS'
CALLS = {'open': 'open', 'io.open': 'open', 'os.path.exists': 'exists',
         'os.path.isfile': 'exists', 'os.path.lexists': 'exists',
         'os.link': 'link', 'os.unlink': 'unlink', 'os.remove': 'unlink',
         'os.rename': 'rename', 'os.replace': 'rename', 'os.chmod': 'chmod',
         'os.kill': 'kill', 'time.sleep': 'sleep', 'time.time': 'time',
         'time.monotonic': 'time', 'dbm.gnu.open': 'dbm', 'gdbm.open': 'dbm'}
VALUES = {'os.getpid': PID, 'platform.node': 'host', 'id': 4242,
          'socket.gethostname': 'host', 'atexit.register': None}


def mpi(n):
    return n.bit_length().to_bytes(2, 'big') + n.to_bytes(
        (n.bit_length() + 7) // 8, 'big')


def packet(tag, body, style='old'):
    n = len(body)
    if tag > 15 and style[:3] == 'old':
        style = 'new'
    if style == 'old':
        return bytes([0x80 | tag << 2, n]) + body
    if style == 'old2':
        return bytes([0x80 | tag << 2 | 1]) + n.to_bytes(2, 'big') + body
    if style == 'old4':
        return bytes([0x80 | tag << 2 | 2]) + n.to_bytes(4, 'big') + body
    if style == 'new':
        return bytes([0xc0 | tag, n]) + body
    return bytes([0xc0 | tag, 255]) + n.to_bytes(4, 'big') + body


SUBSIG = b'\x04\x18\x01\x02' + bytes(4) + b'\x12\x34' + b'\0\x09\1\3'
SIG = b'\x04\x13\x01\x02' + bytes(4) + b'\x12\x34' + b'\0\x09\1\2'


def key(i, created=None, style='old', extra=(), uid=None):
    """The packets of a small key."""
    t = i + 1 if created is None else created
    body = b'\x04' + t.to_bytes(4, 'big') + b'\x01' + mpi(
        0xabcdef0123456789) + mpi(65537)
    out = [packet(6, body, style),
           packet(13, (uid or 'user %d' % i).encode(), style)]
    for tag, b in extra:
        out.append(packet(tag, b, style))
    return out


def secret(i, style='old', extra=(), uid=None):
    """The packets of a small secret key, not protected."""
    d, p, q, u = 0x1234567, 0xabcdef, 0xfedcb9, 0x13579
    sec = mpi(d) + mpi(p) + mpi(q) + mpi(u)
    b = b'\x04' + (i + 1).to_bytes(4, 'big') + b'\x01' + mpi(
        0xabcdef0123456789) + mpi(65537) + b'\0' + sec + (
            sum(sec) & 0xffff).to_bytes(2, 'big')
    out = [packet(5, b, style),
           packet(13, (uid or 'user %d' % i).encode(), style)]
    for tag, b in extra:
        out.append(packet(tag, b, style))
    return out


def style(p):
    if p[0] & 64:
        return 'new5' if p[1] == 255 else 'new'
    return ('old', 'old2', 'old4')[p[0] & 3]


def tag(p):
    return p[0] & 63 if p[0] & 64 else p[0] >> 2 & 15


def packets(data):
    """The packets of an octet string, or None."""
    out = []
    i = 0
    while i < len(data):
        h = data[i]
        if not h & 128:
            return None
        if h & 64:
            if data[i + 1:i + 2] == b'':
                return None
            n = data[i + 1]
            if n < 192:
                j = i + 2
            elif n < 224:
                if i + 3 > len(data):
                    return None
                n = ((n - 192) << 8) + data[i + 2] + 192
                j = i + 3
            elif n == 255:
                n = int.from_bytes(data[i + 2:i + 6], 'big')
                j = i + 6
            else:
                return None
        elif h & 3 == 3:
            return None
        else:
            j = i + 1 + (1 << (h & 3))
            n = int.from_bytes(data[i + 1:j], 'big')
        if j + n > len(data):
            return None
        out.append(data[i:j + n])
        i = j + n
    return out


def body(p):
    if p[0] & 64:
        return p[6:] if p[1] == 255 else p[2:]
    return p[1 + (1 << (p[0] & 3)):]


def fingerprint(p):
    b = body(p)
    if tag(p) == 5:
        n = 6
        for _ in range(2):
            n += 2 + (int.from_bytes(b[n:n + 2], 'big') + 7) // 8
        b = b[:n]
    return hashlib.sha1(b'\x99' + len(b).to_bytes(2, 'big') + b).hexdigest(
        ).upper()


def subkey(i):
    return (14, b'\x04' + (90 + i).to_bytes(4, 'big') + b'\x01' + mpi(
        0xfedcba9876543211) + mpi(65537))


def text(x):
    return const(x)


def data(packets):
    return const(b''.join(packets))


def tup(*a):
    return mk('tuple', *a)


class Op(object):
    """One operation on a keyring file in a model file system."""

    def __init__(self, c, fn='operate', ring=(), key=None, op='none',
                 cls='keyring', fault=None, read_only=False, force=False,
                 reset=True, alive=(), lock=None, exists=True, args=None):
        sp = SPEC(c, 'rings')
        names, contents = [], []
        if exists:
            names.append(RING)
            if cls == 'gdbm':
                contents.append(tup(*[
                    tup(const(fingerprint(k[0]).encode()),
                        const(b''.join(k))) for k in ring]))
            else:
                contents.append(const(b''.join(x for k in ring for x in k)))
        if lock is not None:
            names.append(RING + '.lock')
            contents.append(const(lock))
        self.fsargs = tup(tup(*map(const, names)), tup(
            *contents), tup(*map(const, alive)),
            const(fault))
        intr = {}
        for n, m in CALLS.items():
            intr[n] = self.hook(m)
        for n, v in VALUES.items():
            intr[n] = self.value(v)
        intr['os.path.expanduser'] = self.expand
        for n in ('threading.RLock', 'threading.Lock'):
            intr[n] = self.rlock
        intr['pgp.packets.parsers.parse_binary_packet_stream'] = self.stream
        intr['pgp.packets.parsers.parse_binary_packet_data'] = self.octets
        ip = c.interp(intrinsics=intr)
        ip.explicit_only = True
        ip.fold_digests = True
        k = tup(*[const(x) for x in key]) if key else const(None)
        if args is None:
            args = [const(cls), const(read_only), const(force), const(op), k,
                    const(reset)]
        self.ip = ip
        self.run = Run(c, sp, fn, [self.fsargs] + args, ip=ip)
        self.where = self.run.where

    def hook(self, method):
        def h(ip, name, args, kw, st, node):
            for k, o in st.heap.items():
                if o.kind == 'inst' and o.cls == FS:
                    break
            else:
                return NotImplemented
            return ip.call_method(mk('obj', k), method, list(args), list(kw), st,
                                  node)
        return h

    def value(self, v):
        def h(ip, name, args, kw, st, node):
            return const(v)
        return h

    def expand(self, ip, name, args, kw, st, node):
        a = ip.snapshot(args[0], st) if args else None
        if a is None or a.op != 'const':
            return NotImplemented
        return const(tm.cval(a).replace('~', '/home', 1))

    def rlock(self, ip, name, args, kw, st, node):
        return ip.instantiate(mk('class', 'spec.rings:RL'), [], [], st, node)

    def stream(self, ip, name, args, kw, st, node):
        return ip.instantiate(mk('class', 'spec.rings:Packets'), list(args),
                              [], st, node)

    def octets(self, ip, name, args, kw, st, node):
        return ip.instantiate(mk('class', 'spec.rings:Octets'), list(args),
                              [], st, node)

    def exits(self):
        r = self.run
        if r.r.state is not None and r.value.op != 'noreturn':
            yield 'return', self.look(r.r.state.heap, r.r.state)
        for x in r.raises:
            yield 'raise', self.look(x.heap, None)

    def look(self, heap, st):
        from ..interp import State
        st = st or State({}, heap, ())
        out = {}
        n = 0
        for o in heap.values():
            if o.kind != 'inst':
                continue
            if o.cls == FS:
                for k, v in o.attrs.items():
                    out[k] = self.ip.snapshot(v, st)
            elif o.cls == 'spec.rings:RL':
                out['rl%d' % n] = self.ip.snapshot(o.attrs['count'], st)
                n += 1
        return out
