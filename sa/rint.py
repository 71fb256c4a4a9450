"""Random interpretation of value graphs (Gulwani and Necula, POPL 2003).

Used only as a filter: where two normal forms differ, the difference is
reported only if some assignment of the graphs' free inputs tells them apart.
Operators without a definition here are treated as uninterpreted functions.
It evaluates value graphs extracted from source, never the analysed program.
"""
import hashlib
import random
import time
from . import terms as tm
from .terms import cval


class Undef(Exception):
    pass


PURE_METHODS = ('upper', 'lower', 'zfill', 'rjust', 'ljust', 'strip',
                'lstrip', 'rstrip', 'startswith', 'endswith', 'replace',
                'encode', 'decode', 'find', 'count', 'split', 'join', 'hex')
PURE_CALLS = ('int', 'abs', 'len', 'str', 'hex', 'bin', 'round', 'bytes',
              'bytearray', 'ord', 'chr', 'min', 'max')
WIDENED = ('unk', 'excat', 'loopvar', 'loopout', 'exists', 'forall', 'each')


def uninterpreted(key, ty, seed):
    h = hashlib.sha256(repr((key, seed)).encode()).digest()
    if ty == 'int':
        return int.from_bytes(h[:2], 'big')
    if ty == 'bytes':
        return h[:24]
    if ty == 'bool':
        return bool(h[0] & 1)
    if ty == 'str':
        return h.hex()
    return ('u', h[:8])


class Ev(object):
    def __init__(self, rng, pins=None):
        self.rng = rng
        self.seed = rng.random()
        self.pins = dict(pins or {})
        self.val = dict(self.pins)
        self.widened = False
        self.leaf = {}

    def bytes_like(self, v):
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, tuple) and v and v[0] == 'u':
            return hashlib.sha256(repr(v).encode()).digest()[:24]
        raise Undef('bytes')

    def __call__(self, t):
        r = self.val.get(t)
        if r is None:
            if t.op in ('sym', 'fixed', 'exactint'):
                r = self.leaf.get(t)
                if r is None:
                    r = self.leaf[t] = self.ev(t)
                return r
            r = self.ev(t)
            self.val[t] = r
        return r

    def int_(self, t):
        if t.op == 'ext':
            # a number of a library, which is not known here
            self.widened = True
        v = self(t)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v and v[0] == 'u':
            return int.from_bytes(hashlib.sha256(repr(v).encode()).digest()[
                :2], 'big')
        raise Undef('int')

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return cval(t)
        if op in WIDENED:
            self.widened = True
        if op == 'sym':
            ty = a[1]
            r = self.rng
            if ty == 'int':
                return r.choice([0, 1, 2, 7, 127, 128, 191, 192, 255, 256,
                                 8383, 8384, 65535, 65536,
                                 r.randrange(1 << 16), r.randrange(1 << 24),
                                 r.randrange(1 << 64), r.randrange(1 << 72),
                                 r.randrange(1 << 32)])
            if ty == 'bytes':
                n = r.choice([0, 1, 2, 8, 20, 40, 64])
                return bytes(r.randrange(256) for _ in range(n))
            if ty == 'bool':
                return bool(r.randrange(2))
            if ty == 'str':
                return ''.join(r.choice('abc\r\n') for _ in range(
                    r.randrange(6)))
            return uninterpreted(('sym', a[0]), None, self.seed)
        if op == 'lin':
            return a[0] + sum(k * self.int_(x) for x, k in a[1])
        if op == 'bits':
            v = self.int_(a[0]) >> a[1]
            return v if a[2] is None else v & ((1 << a[2]) - 1)
        if op in ('item', 'rd') and tm.type_of(a[0]) == 'bytes':
            b = self.bytes_like(self(a[0]))
            i = self.int_(a[1])
            if op == 'item':
                if -len(b) <= i < len(b):
                    return b[i]
                raise Undef('index')
            if i < 0:
                i += len(b)
                if i < 0:
                    raise Undef('index')
            return int.from_bytes((b[i:i + a[2]] + b'\0' * a[2])[:a[2]],
                                  'big')
        if op == 'slice' and tm.type_of(a[0]) == 'bytes':
            b = self.bytes_like(self(a[0]))
            lo = None if a[1] is tm.NONE else self.int_(a[1])
            hi = None if a[2] is tm.NONE else self.int_(a[2])
            return b[lo:hi]
        if op == 'bseq':
            return b''.join(self.part(p) for p in a)
        if op == 'len':
            v = self(a[0])
            if isinstance(v, (bytes, str, bytearray)):
                return len(v)
            return uninterpreted(('len', v), 'int', self.seed)
        if op == 'phi':
            return self(a[1]) if self.truthy(a[0]) else self(a[2])
        if op == 'bool':
            return self.truthy(a[0])
        if op == 'not':
            return not self.truthy(a[0])
        if op == 'and':
            return all(self.truthy(x) for x in a)
        if op == 'or':
            return any(self.truthy(x) for x in a)
        if op == 'cmp':
            x, y = self(a[1]), self(a[2])
            try:
                if a[0] in ('==', 'is'):
                    return x == y
                if a[0] in ('!=', 'is not'):
                    return x != y
                if a[0] == '<':
                    return x < y
                if a[0] == '<=':
                    return x <= y
                if a[0] == '>':
                    return x > y
                if a[0] == '>=':
                    return x >= y
                if a[0] == 'in':
                    return x in y
                if a[0] == 'not in':
                    return x not in y
            except TypeError:
                return uninterpreted(('cmp', a[0], x, y), 'bool', self.seed)
        if op == 'bitlen':
            return self.int_(a[0]).bit_length()
        if op == 'bytesum':
            return sum(self.bytes_like(self(a[0])))
        if op == 'mod' and len(a) == 2:
            d = self.int_(a[1])
            if d == 0:
                raise Undef('mod')
            return self.int_(a[0]) % d
        if op == 'floordiv' and len(a) == 2:
            d = self.int_(a[1])
            if d == 0:
                raise Undef('div')
            return self.int_(a[0]) // d
        if op == 'mulv':
            r = 1
            for x in a:
                r *= self.int_(x)
            return r
        m = getattr(self, 'o_' + op, None)
        if m is not None:
            r = m(t, *a)
            if r is not NotImplemented:
                return r
        return uninterpreted((op,) + tuple(self.arg(x) for x in a),
                             tm.type_of(t), self.seed)

    def o_fixed(self, t, name, ty, n):
        r = self.rng
        if n > 200000:
            raise Undef('long')
        if ty == 'bytes':
            return bytes(r.choice([r.randrange(256), 0, 255, 65])
                         for _ in range(n))
        return ''.join(r.choice('0123456789ABCDEF') for _ in range(n))

    def o_exactint(self, t, name, k):
        if k == 0:
            return 0
        lo = 1 << (k - 1)
        return self.rng.choice([lo, 2 * lo - 1, lo + self.rng.randrange(lo)])

    def o_strm(self, t, d, ctor, data):
        """Some feedback cipher."""
        k = repr(self(ctor)).encode()
        out, ct = bytearray(), b''
        x = self.bytes_like(self(data))
        if len(x) > 20000:
            raise Undef('long')
        h = hashlib.sha1(k)
        for c in x:
            y = c ^ h.digest()[0]
            h.update(bytes([y if d == 'encrypt' else c]))
            out.append(y)
        return bytes(out)

    def o_eiv(self, t, ctor, n):
        k = repr(self(ctor)).encode()
        return hashlib.sha512(b'iv' + k).digest()[:n]

    def o_tuple(self, t, *a):
        return ('tuple',) + tuple(self(x) for x in a)

    def o_strcat(self, t, *a):
        out = []
        for x in a:
            v = self(x)
            if not isinstance(v, str):
                raise Undef('str')
            out.append(v)
        return ''.join(out)

    def o_hexoctet(self, t, x):
        return '{:02X}'.format(self.int_(x))

    def o_hexnorm(self, t, x):
        return str(self(x)).upper()

    def o_lowerhex(self, t, x):
        return str(self(x)).lower()

    def o_unhex(self, t, x):
        v = self(x)
        if not isinstance(v, str):
            raise Undef('str')
        return int(v, 16)

    def o_fmt(self, t, f, *xs):
        if not tm.is_const(f):
            return NotImplemented
        s = cval(f)
        vals = [self(x) for x in xs]
        if '{' in s:
            return s.format(*vals)
        if '%' in s and len(vals) == 1:
            v = vals[0]
            if isinstance(v, tuple) and v and v[0] == 'tuple':
                v = v[1:]
            return s % v
        return NotImplemented

    def o_shl(self, t, x, y):
        n = self.int_(y)
        if n < 0 or n > 5000:
            raise Undef('shift')
        return self.int_(x) << n

    def o_shr(self, t, x, y):
        n = self.int_(y)
        if n < 0:
            raise Undef('shift')
        return self.int_(x) >> n

    def o_mask(self, t, x, v):
        return self.int_(x) & v

    def o_brep(self, t, x, n):
        k = self.int_(n)
        if k > 100000:
            raise Undef('long')
        return self.bytes_like(self(x)) * k

    def o_slice(self, t, b, lo, hi):
        v = self(b)
        if not isinstance(v, (str, bytes)):
            return NotImplemented
        return v[None if lo is tm.NONE else self.int_(lo):
                 None if hi is tm.NONE else self.int_(hi)]

    def o_item(self, t, b, i):
        v = self(b)
        if isinstance(v, (str, bytes)):
            k = self.int_(i)
            if not -len(v) <= k < len(v):
                raise Undef('index')
            return v[k]
        return NotImplemented

    def o_beenc(self, t, n, x):
        return self.int_(x).to_bytes(self.int_(n), 'big')

    def o_bedec(self, t, x):
        return int.from_bytes(self.bytes_like(self(x)), 'big')

    def num(self, x):
        v = self(x)
        if isinstance(v, (int, float)):
            return v
        return self.int_(x)

    def o_dec(self, t, x, enc, errors):
        v = self(x)
        if not isinstance(v, (bytes, bytearray)):
            return NotImplemented
        return bytes(v).decode(enc, errors)

    def o_enc(self, t, x, enc, errors):
        v = self(x)
        if not isinstance(v, str):
            return NotImplemented
        return v.encode(enc, errors)

    def o_digest(self, t, ctor, data):
        d = self.bytes_like(self(data))
        n = ctor.args[0] if ctor.op == 'alg' else None
        if n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512'):
            return hashlib.new(n, d).digest()
        n = n if isinstance(n, str) else self(ctor)
        return hashlib.sha512(repr((n, d)).encode()).digest()[
            :{'md2': 16, 'md4': 16, 'ripemd160': 20}.get(n, 32)]

    def o_hexdigest(self, t, ctor, data):
        return self.o_digest(t, ctor, data).hex()

    def o_float(self, t, x):
        return float(self.num(x))

    def o_log(self, t, x, b=None):
        import math
        return math.log(self.num(x), *([] if b is None else [self.num(b)]))

    def o_floor(self, t, x):
        import math
        return math.floor(self.num(x))

    def o_ceil(self, t, x):
        import math
        return math.ceil(self.num(x))

    def o_bin(self, t, op, x, y):
        import operator as o
        f = {'Div': o.truediv, '+': o.add, '-': o.sub, '*': o.mul,
             '|': o.or_, '&': o.and_, 'BitXor': o.xor, 'FloorDiv': o.floordiv,
             'Mod': o.mod, 'Pow': o.pow}.get(op)
        if f is None:
            return NotImplemented
        a, b = self(x), self(y)
        if isinstance(a, str) or isinstance(b, str):
            return f(a, b)
        return f(self.num(x), self.num(y))

    def o_call(self, t, name, args, kw):
        pure = {'int': int, 'abs': abs, 'len': len, 'str': str, 'hex': hex,
                'bin': bin, 'round': round, 'ord': ord, 'chr': chr,
                'min': min, 'max': max}
        f = pure.get(name)
        if name in ('bytes', 'bytearray') and len(args) == 1 and not kw:
            v = self(args[0])
            return v if isinstance(v, bytes) else NotImplemented
        if f is None or kw:
            return NotImplemented
        vs = [self(x) for x in args]
        if any(isinstance(v, tuple) for v in vs):
            return NotImplemented
        return f(*vs)

    def o_mcall(self, t, b, name, args, kw):
        if name not in PURE_METHODS or kw:
            return NotImplemented
        v = self(b)
        if not isinstance(v, (str, bytes)):
            return NotImplemented
        vs = [self(x) for x in args]
        if any(isinstance(x, tuple) for x in vs):
            return NotImplemented
        r = getattr(v, name)(*vs)
        return tuple(r) if isinstance(r, list) else r

    def over(self, o):
        """Concrete iteration values of a loop source, or None."""
        if o.op == 'call' and o.args[0] == 'range':
            r = range(*[self.int_(x) for x in o.args[1]])
            if len(r) > 4096:
                raise Undef('long')
            return list(r)
        v = self(o)
        if isinstance(v, (bytes, str)):
            return list(v)
        return None

    def iterate(self, o, fn):
        vals = self.over(o)
        if vals is None:
            return None
        out = []
        keep = self.val
        idx = tm.mk('idx', o)
        each = [tm.mk('each', o, d) for d in (0, 1, 2)]
        dep = {}
        for i, v in enumerate(vals):
            self.val = {k: x for k, x in keep.items()
                        if not self.depends(k, idx, each, dep)}
            self.val[idx] = i if not (o.op == 'call') else v
            for e in each:
                self.val[e] = v
            out.append(fn())
        self.val = keep
        return out

    def depends(self, k, idx, each, memo):
        r = memo.get(k)
        if r is None:
            r = memo[k] = any(s is idx or s in each
                              for s in tm.subterms(k))
        return r

    def arg(self, x):
        if isinstance(x, tm.T):
            v = self(x)
            return v
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        return repr(x)

    def truthy(self, t):
        v = self(t)
        if isinstance(v, tuple) and v and v[0] == 'u':
            return bool(hashlib.sha256(repr(v).encode()).digest()[0] & 1)
        return bool(v)

    def part(self, p):
        if p[0] == 'k':
            return p[1]
        if p[0] == 'b':
            v = self.int_(p[1])
            if not 0 <= v < 256:
                raise Undef('octet')
            return bytes([v])
        if p[0] == 'be':
            return (self.int_(p[2]) % 256 ** p[1]).to_bytes(p[1], 'big')
        if p[0] == 'c':
            return self.bytes_like(self(p[1]))
        if p[0] == 'z':
            n = self.int_(p[1])
            if n > 100000:
                raise Undef('long')
            return b'\0' * max(0, n)
        if p[0] == 'alt':
            q = p[2] if self.truthy(p[1]) else p[3]
            return b''.join(self.part(x) for x in q)
        if p[0] == 'rep':
            out = self.iterate(p[1], lambda: b''.join(
                self.part(q) for q in p[2]))
            if out is not None:
                return b''.join(out)
            self.widened = True
            h = repr(('rep', self.arg(p[1]), self.parg(p[2])))
            return hashlib.sha256(h.encode()).digest()[:12]
        raise Undef(p[0])

    def parg(self, parts):
        out = []
        for p in parts:
            out.append(tuple(self.arg(x) if isinstance(x, tm.T) else
                             (self.parg(x) if isinstance(x, tuple) and x and
                              isinstance(x[0], tuple) else repr(x))
                             for x in p))
        return tuple(out)


def limits(facts):
    """{term: (lo, hi)} from comparisons with integer constants."""
    out = {}
    for atom, v in facts:
        if atom.op != 'cmp' or not tm.is_int_const(atom.args[2]):
            continue
        op, x, k = atom.args[0], atom.args[1], cval(atom.args[2])
        if not v:
            op = {'<=': '>', '<': '>=', '>=': '<', '>': '<=', '!=': '==',
                  '==': '!='}.get(op)
        lo, hi = out.get(x, (None, None))
        if op in ('>=', '>', '=='):
            k2 = k + (op == '>')
            lo = k2 if lo is None else max(lo, k2)
        if op in ('<=', '<', '=='):
            k2 = k - (op == '<')
            hi = k2 if hi is None else min(hi, k2)
        out[x] = (lo, hi)
    return out


def steer(ev, lim):
    """Choose inputs inside the limits where that is directly possible."""
    r = ev.rng

    def pick(lo, hi, top):
        lo = 0 if lo is None else lo
        hi = max(top, lo) if hi is None else hi
        if hi < lo:
            raise Undef('empty')
        return r.choice([lo, hi, r.randint(lo, hi)])
    for t, (lo, hi) in lim.items():
        if t.op == 'sym' and t.args[1] == 'int':
            ev.leaf[t] = pick(lo, hi, 1 << 40)
        elif t.op == 'len' and t.args[0].op == 'sym' and \
                t.args[0].args[1] == 'bytes':
            n = pick(lo, hi, 300)
            if n <= 100000:
                ev.leaf[t.args[0]] = r.randbytes(n)
    for t, (lo, hi) in lim.items():
        if t.op in ('item', 'rd') and t.args[0].op in ('sym', 'fixed') and \
                tm.type_of(t.args[0]) == 'bytes':
            n = 1 if t.op == 'item' else t.args[2]
            v = pick(lo, hi, 256 ** n - 1)
            i = ev.int_(t.args[1])
            if not 0 <= v < 256 ** n or not 0 <= i < 100000:
                continue
            b = bytearray(ev(t.args[0]))
            if t.args[0].op == 'sym' and len(b) < i + n + 8 and \
                    not any(x.op == 'len' and x.args[0] is t.args[0]
                            for x in lim):
                b.extend(r.randbytes(i + n + 8 - len(b)))
            if len(b) >= i + n:
                b[i:i + n] = v.to_bytes(n, 'big')
                ev.leaf[t.args[0]] = bytes(b)


def holes(t, digests=False):
    """The leaf a value is stored in and the place there, or None.  Digests
    are taken to be free: no input with a given digest is exhibited."""
    if digests:
        if t.op in ('item', 'rd', 'slice') and t.args[0].op == 'digest' and \
                all(tm.is_int_const(x) for x in t.args[1:] if
                    isinstance(x, tm.T)):
            k = tm.length(t.args[0])
            lo = cval(t.args[1])
            n = 1 if t.op == 'item' else t.args[2] if t.op == 'rd' else \
                cval(t.args[2]) - lo
            if tm.is_int_const(k) and 0 <= lo and 0 < n and \
                    lo + n <= cval(k):
                return t.args[0], lo, n
        return None
    if t.op == 'fixed' and t.args[1] == 'bytes':
        return t, 0, t.args[2]
    if t.op in ('item', 'rd', 'slice') and t.args[0].op == 'fixed' and \
            t.args[0].args[1] == 'bytes' and tm.is_int_const(t.args[1]):
        lo = cval(t.args[1])
        n = 1
        if t.op == 'rd':
            n = t.args[2]
        elif t.op == 'slice':
            if not tm.is_int_const(t.args[2]):
                return None
            n = cval(t.args[2]) - lo
        if 0 <= lo and 0 < n and lo + n <= t.args[0].args[2]:
            return t.args[0], lo, n
    return None


def solvable(facts):
    """Equalities that hold when a fixed input is chosen accordingly."""
    out = []
    for atom, v in facts:
        if atom.op != 'cmp' or atom.args[0] != ('==' if v else '!='):
            continue
        x, y = atom.args[1:]
        for p, q, d in ((x, y, 0), (y, x, 0), (x, y, 1), (y, x, 1)):
            if not isinstance(p, tm.T) or not isinstance(q, tm.T):
                continue
            h = holes(p, d)
            if h and not reads(q, *h):
                out.append((h, q))
                break
    return out


def reads(t, leaf, lo, n):
    """Whether t may read octets lo..lo+n of the leaf."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x is leaf:
            return True
        if not isinstance(x, tm.T):
            if isinstance(x, tuple):
                todo += x
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('item', 'rd', 'slice') and x.args[0] is leaf:
            h = holes(x)
            if h and (h[1] + h[2] <= lo or lo + n <= h[1]):
                continue
        todo += x.args
    return False


def solve(ev, eqs):
    for (leaf, lo, n), q in eqs:
        w = ev(q)
        if isinstance(w, int) and not isinstance(w, bool):
            if not 0 <= w < 256 ** n:
                continue
            w = w.to_bytes(n, 'big')
        try:
            w = ev.bytes_like(w)
        except Undef:
            continue
        if len(w) != n:
            continue
        b = bytearray(ev(leaf))
        b[lo:lo + n] = w
        if leaf.op == 'digest':
            ev.pins[leaf] = bytes(b)
        else:
            ev.leaf[leaf] = bytes(b)
        ev.val = dict(ev.pins)


def flat(t):
    """Octets of a string whose parts all have constant sizes, as a list of
    (length, kind, ...) runs, or None."""
    if t.op == 'const' and isinstance(cval(t), (bytes, bytearray)):
        return [(len(cval(t)), 'k', bytes(cval(t)))]
    if t.op == 'fixed' and t.args[1] == 'bytes':
        return [(t.args[2], 'f', t, 0)]
    if t.op == 'slice' and t.args[0].op == 'fixed' and \
            t.args[0].args[1] == 'bytes' and tm.is_int_const(t.args[1]) and \
            tm.is_int_const(t.args[2]):
        lo, hi = cval(t.args[1]), cval(t.args[2])
        return [(hi - lo, 'f', t.args[0], lo)]
    if t.op == 'bseq':
        out = []
        for p in t.args:
            if p[0] == 'k':
                out.append((len(p[1]), 'k', p[1]))
            elif p[0] == 'c':
                f = flat(p[1])
                if f is None:
                    return None
                out += f
            else:
                return None
        return out
    return None


COMPUTED = frozenset((
    'lin', 'bits', 'item', 'rd', 'slice', 'bseq', 'len', 'phi', 'bool', 'not',
    'and', 'or', 'cmp', 'strcat', 'hexoctet', 'unhex', 'hexof', 'hexnorm',
    'lowerhex', 'enc', 'dec', 'tuple', 'listv', 'bin', 'shl'))


def apart(a, b, tied=frozenset()):
    """a and b differ whatever their (independent) fixed inputs are, or for
    almost all of them."""
    if a.op == 'const' and b.op == 'const':
        x, y = cval(a), cval(b)
        return type(x) is type(y) and x != y
    if a.op == b.op and a.op in ('tuple', 'listv') and \
            len(a.args) == len(b.args):
        return any(apart(x, y, tied) for x, y in zip(a.args, b.args)
                   if isinstance(x, tm.T) and isinstance(y, tm.T))
    if (a.op == 'tuple') != (b.op == 'tuple') and 'const' in (a.op, b.op):
        return not isinstance(cval(a if a.op == 'const' else b), tuple)
    x, y = flat(a), flat(b)
    if x is None or y is None:
        return False
    if sum(r[0] for r in x) != sum(r[0] for r in y):
        return True
    x, y = [r for r in x if r[0]], [r for r in y if r[0]]
    while x and y:
        n = min(x[0][0], y[0][0])
        p, q = x[0], y[0]
        if p[1] == 'k' and q[1] == 'k':
            if p[2][:n] != q[2][:n]:
                return True
        elif (p[1] != q[1] or p[2:] != q[2:]) and not any(
                s in tied for r in (p, q) if isinstance(r[2], tm.T)
                for s in tm.subterms(r[2])):
            return True
        for l, r in ((x, p), (y, q)):
            if r[0] == n:
                l.pop(0)
            elif r[1] == 'k':
                l[0] = (r[0] - n, 'k', r[2][n:])
            else:
                l[0] = (r[0] - n, 'f', r[2], r[3] + n)
    return False


def distinguish(a, b, facts=(), tries=300, seed=1):
    """-> 'differ' | 'same' | 'unknown'."""
    rng = random.Random(seed)
    good = 0
    pins = {}
    for atom, v in facts:
        if v and atom.op == 'cmp' and atom.args[0] == '==':
            x, y = atom.args[1:]
            # only opaque values can be fixed from outside
            if tm.is_const(y) and x.op not in COMPUTED:
                pins[x] = cval(y)
            elif tm.is_const(x) and y.op not in COMPUTED:
                pins[y] = cval(x)
    for atom, v in facts:
        if atom.op == 'bool' and atom.args[0].op not in COMPUTED and \
                atom.args[0].op not in ('sym', 'fixed', 'exactint'):
            pins.setdefault(atom.args[0], v)
    eqs = solvable(facts)
    tied = frozenset(s for atom, v in facts for s in tm.subterms(atom)
                     if s.op in ('fixed', 'sym', 'exactint'))
    separate = apart(a, b, tied)
    if separate and not facts:
        return 'differ'
    lim = limits(facts)
    end = time.time() + 20
    for i in range(tries):
        if time.time() > end:
            break
        ev = Ev(rng, pins)
        try:
            if i % 4:
                steer(ev, lim)
                # a later choice may undo an earlier one
                for k in range(min(3, len(eqs))):
                    solve(ev, eqs)
            ok = True
            for atom, v in facts:
                try:
                    if ev.truthy(atom) != v:
                        ok = False
                        break
                except (Undef, TypeError, ValueError, OverflowError,
                        IndexError):
                    if not separate:
                        raise
            if not ok:
                continue
            if separate and not ev.widened:
                return 'differ'
            x, y = ev(a), ev(b)
        except (Undef, TypeError, ValueError, OverflowError, IndexError):
            continue
        good += 1
        if x != y:
            if ev.widened:
                good -= 1
                continue
            return 'differ'
    return 'same' if good >= 5 else 'unknown'
