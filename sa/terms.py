"""Hash-consed value-flow terms and their normal forms.

A term denotes the value an expression has as a function of the analysed
function's inputs.  Joins of control flow are `phi(cond, a, b)` (gated single
assignment); integer arithmetic is kept in linear normal form; octet strings
are kept as sequences of segments.  Nothing here executes the analysed code.
"""
import re


class T(object):
    __slots__ = ('op', 'args', 'id', '_sub')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_TABLE = {}


def mk(op, *args):
    key = (op,) + args
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_TABLE)
        t._sub = None
        _TABLE[key] = t
    return t


class K(object):
    """Typed constant key so that 1, True and 1.0 differ."""
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, K) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


def const(v):
    return mk('const', K(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0].v


def is_int_const(t):
    return t.op == 'const' and type(cval(t)) in (int, bool)


def sym(name, ty=None):
    return mk('sym', name, ty)


def unk(tag, *deps):
    return mk('unk', tag, *deps)


INT_OPS = ('lin', 'bits', 'rd', 'len', 'bitlen', 'mpi', 'mpilen', 'idx',
           'mulv', 'floordiv', 'mod', 'pow', 'bytesum', 'shl', 'digestlen')


def type_of(t):
    op = t.op
    if op == 'const':
        v = cval(t)
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, (bytes, bytearray)):
            return 'bytes'
        if isinstance(v, str):
            return 'str'
        if v is None:
            return 'none'
        if isinstance(v, float):
            return 'float'
        return None
    if op in INT_OPS:
        return 'int'
    if op in ('bseq', 'slice_b', 'mpienc', 'digest', 'strm', 'eiv'):
        return 'bytes'
    if op == 'sym':
        return t.args[1]
    if op == 'slice':
        return type_of(t.args[0])
    if op == 'item':
        if type_of(t.args[0]) == 'bytes':
            return 'int'
        return None
    if op in ('cmp', 'not', 'and', 'or', 'isinst'):
        return 'bool'
    if op in ('fmt', 'hexof', 'hexoctet', 'hexnorm', 'lowerhex', 'binof',
              'strcat', 'strjoin', 'dec'):
        return 'str'
    if op == 'fixed':
        return t.args[1]
    if op in ('exactint', 'unhex', 'bedec'):
        return 'int'
    if op in ('beenc', 'brep', 'enc'):
        return 'bytes'
    if op == 'phi':
        a, b = type_of(t.args[1]), type_of(t.args[2])
        return a if a == b else None
    if op in ('dt', 'td', 'ttuple', 'float'):
        return 'float' if op == 'float' else 'time'
    if op == 'tuple':
        return 'tuple'
    if op == 'loopvar':
        return t.args[2]
    if op == 'loopout':
        return t.args[2]
    if op == 'call':
        return CALL_TYPES.get(t.args[0])
    if op == 'mcall':
        return MCALL_TYPES.get(t.args[1])
    if op == 'xcall':
        return XCALL_TYPES.get(t.args[2])
    if op == 'attr' and len(t.args) > 2:
        return t.args[2]
    return None


XCALL_TYPES = {'compress': 'bytes', 'decompress': 'bytes', 'flush': 'bytes',
               'encrypt': 'bytes', 'decrypt': 'bytes', 'read': 'bytes',
               'recv': 'bytes'}
CALL_TYPES = {'zlib.compress': 'bytes', 'zlib.decompress': 'bytes',
              'bz2.compress': 'bytes', 'bz2.decompress': 'bytes',
              'bytes': 'bytes', 'bytearray': 'bytes', 'int': 'int',
              'str': 'str', 'len': 'int', 'sum': 'int', 'ord': 'int',
              'bool': 'bool', 'repr': 'str', 'float': 'float', 'abs': 'int',
              'math.floor': 'int', 'math.ceil': 'int'}
MCALL_TYPES = {'encode': 'bytes', 'decode': 'str', 'digest': 'bytes',
               'hexdigest': 'str', 'upper': 'str', 'lower': 'str',
               'format': 'str', 'find': 'int', 'bit_length': 'int',
               'encrypt': 'bytes', 'decrypt': 'bytes', 'strip': None,
               'randint': 'int', 'read': 'bytes', 'startswith': 'bool',
               'endswith': 'bool'}


# --------------------------------------------------------------------------
# linear integer normal form

def lin_parts(t):
    """-> (const, {atom: coef})"""
    if is_int_const(t):
        return int(cval(t)), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, atoms):
    atoms = {a: k for a, k in atoms.items() if k != 0}
    if not atoms:
        return const(c)
    # big-endian read recognition: sum of 256**k * item(base, off + i)
    if len(atoms) >= 2:
        c, atoms = _join_reads(c, atoms)
        c, atoms = _join_bits(c, atoms)
    if c == 0 and len(atoms) == 1:
        (a, k), = atoms.items()
        if k == 1:
            return a
    return mk('lin', c, tuple(sorted(atoms.items(), key=lambda p: p[0].id)))


def _join_reads(c, atoms):
    """Combine 256*rd(b, o, n) + rd(b, o+n, m) into rd(b, o, n+m)."""
    def as_read(a):
        if a.op == 'item' and type_of(a.args[0]) == 'bytes':
            return a.args[0], a.args[1], 1
        if a.op == 'rd':
            return a.args
        return None
    changed = True
    while changed:
        changed = False
        reads = [(a, as_read(a)) for a in atoms]
        reads = [(a, r) for a, r in reads if r is not None]
        if len(reads) < 2:
            break
        for a, (b1, o1, n1) in reads:
            for b, (b2, o2, n2) in reads:
                if a is b or b1 is not b2:
                    continue
                if (atoms[a] == atoms[b] * 256 ** n2
                        and add(o1, const(n1)) is o2
                        and not (o2 is ZERO and o1 is not ZERO)):
                    k = atoms.pop(b)
                    atoms.pop(a)
                    r = mk('rd', b1, o1, n1 + n2)
                    atoms[r] = atoms.get(r, 0) + k
                    changed = True
                    break
            if changed:
                break
    return c, atoms


def _join_bits(c, atoms):
    """2**k*bits(x, lo+k, w) + bits(x, lo, k) -> bits(x, lo, w+k)."""
    changed = True
    while changed:
        changed = False
        bl = [a for a in atoms if a.op == 'bits']
        if len(bl) < 2:
            break
        for a in bl:
            for b in bl:
                if a is b or a.args[0] is not b.args[0]:
                    continue
                x, loa, wa = a.args
                _, lob, wb = b.args
                if wb is None or loa != lob + wb:
                    continue
                if atoms[a] == atoms[b] << wb:
                    k = atoms.pop(b)
                    atoms.pop(a)
                    r = bits(x, lob, None if wa is None else wa + wb)
                    rc, ra = lin_parts(r)
                    c += rc * k
                    for at, kk in ra.items():
                        atoms[at] = atoms.get(at, 0) + kk * k
                    atoms = {q: v for q, v in atoms.items() if v}
                    changed = True
                    break
            if changed:
                break
    return c, atoms


def add(a, b):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    for k, v in pb.items():
        pa[k] = pa.get(k, 0) + v
    return mk_lin(ca + cb, pa)


def scale(a, k):
    c, p = lin_parts(a)
    return mk_lin(c * k, {x: v * k for x, v in p.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def split_div(a, k):
    """a == k * q + r, with r free of multiples of k"""
    c, atoms = lin_parts(a)
    q, r = const(c // k), const(c % k)
    for x, n in atoms.items():
        if n % k == 0:
            q = add(q, scale(x, n // k))
        else:
            r = add(r, scale(x, n))
    return q, r


def floordiv(a, b):
    if is_int_const(b) and cval(b) > 0 and type_of(a) == 'int':
        q, r = split_div(a, cval(b))
        if is_int_const(r):
            return q
        return add(q, mk('floordiv', r, b))
    return mk('floordiv', a, b)


def mod(a, b):
    if is_int_const(b) and cval(b) > 0 and type_of(a) == 'int':
        q, r = split_div(a, cval(b))
        return r if is_int_const(r) else mk('mod', r, b)
    return mk('mod', a, b)


def mul(a, b):
    if is_int_const(a):
        a, b = b, a
    if is_int_const(b) and type_of(a) == 'int':
        return scale(a, cval(b))
    return mk('mul', a, b)


def bits(x, lo, width):
    """(x >> lo) & (2**width - 1); width None = unbounded."""
    if is_int_const(x):
        v = int(cval(x)) >> lo
        if width is not None:
            v &= (1 << width) - 1
        return const(v)
    if lo == 0 and width is None:
        return x
    if x.op == 'bits':
        y, l2, w2 = x.args
        if w2 is None:
            return bits(y, l2 + lo, width)
        nw = max(0, w2 - lo)
        if width is not None:
            nw = min(nw, width)
        if nw == 0:
            return const(0)
        return mk('bits', y, l2 + lo, nw)
    w = max_width(x)
    if w is not None:
        if lo >= w:
            return const(0)
        if width is None or lo + width >= w:
            if lo == 0:
                return x
            width = None
    if x.op == 'rd' and lo % 8 == 0:
        base, off, n = x.args
        drop = lo // 8
        keep = n - drop
        if width is not None:
            if width % 8 == 0:
                take = min(width // 8, keep)
                return rd(base, add(off, const(keep - take)), take)
        else:
            return rd(base, off, keep)
    if x.op == 'lin' and isinstance(x.args[0], int) and width is not None:
        # what a summand lost above the kept bits does not matter
        c, p = x.args
        if any(a.op == 'bits' and a.args[1] == 0 and a.args[2] is not None
               and a.args[2] >= lo + width and a.args[0].op == 'lin'
               for a, _ in p):
            y = const(c)
            for a, q in p:
                if a.op == 'bits' and a.args[1] == 0 and \
                        a.args[2] is not None and \
                        a.args[2] >= lo + width and a.args[0].op == 'lin':
                    a = a.args[0]
                y = add(y, mul(a, const(q)))
            return bits(y, lo, width)
    if x.op == 'lin' and isinstance(x.args[0], int):
        # all coefficients multiples of 2**k: the low k bits are constant
        c, p = x.args
        k = min(((q & -q).bit_length() - 1 for _, q in p), default=0)
        if k:
            if width is not None and lo + width <= k:
                return const(((c & ((1 << k) - 1)) >> lo) & ((1 << width) - 1))
            if lo >= k:
                return bits(mk_lin(c >> k, {a: q >> k for a, q in p}),
                            lo - k, width)
    return mk('bits', x, lo, width)


def max_width(x):
    """Upper bound on the bit width of a non-negative term, if known."""
    if is_int_const(x):
        v = cval(x)
        return int(v).bit_length() if v >= 0 else None
    if x.op == 'item' and type_of(x.args[0]) == 'bytes':
        return 8
    if x.op == 'rd':
        return 8 * x.args[2]
    if x.op == 'bits' and x.args[2] is not None:
        return x.args[2]
    if x.op == 'bits' and x.args[2] is None:
        w = max_width(x.args[0])
        if w is not None:
            return max(0, w - x.args[1])
    if x.op == 'exactint':
        return x.args[1]
    if x.op == 'unhex':
        n = length(x.args[0])
        if is_int_const(n):
            return 4 * cval(n)
    return None


def fixed(name, ty, n):
    """A symbolic octet string / character string of exactly n elements."""
    return mk('fixed', name, ty, n)


def exactint(name, k):
    """A symbolic integer of exactly k significant bits (k >= 1)."""
    return mk('exactint', name, k)


def codec(enc, errors):
    import codecs
    try:
        return codecs.lookup(enc).name, errors or 'strict'
    except LookupError:
        return None


def decode(b, enc, errors):
    if b.op == 'enc' and b.args[1] == enc and b.args[2] == 'strict':
        return b.args[0]
    if b.op == 'const':
        try:
            return const(cval(b).decode(enc, errors))
        except Exception:
            pass
    return mk('dec', b, enc, errors)


def encode(s, enc, errors):
    if s.op == 'dec' and s.args[1] == enc:
        if s.args[2] == 'strict' or (s.args[2] == 'surrogateescape' and
                                     errors == 'surrogateescape'):
            return s.args[0]
    if s.op == 'const':
        try:
            return const(cval(s).encode(enc, errors))
        except Exception:
            pass
    return mk('enc', s, enc, errors)


def strcat(a, b):
    out = []
    for t in (a, b):
        for x in (t.args if t.op == 'strcat' else (t,)):
            if is_const(x) and cval(x) == '':
                continue
            if out and is_const(x) and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(x))
                continue
            out.append(x)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    return mk('strcat', *out)


def rd(base, off, n):
    if n == 1:
        return item(base, off)
    return mk('rd', base, off, n)


def shl(x, k):
    return scale(x, 1 << k)


def item(base, idx):
    if base.op == 'const' and idx.op == 'const':
        try:
            return const(cval(base)[cval(idx)])
        except Exception:
            return mk('item', base, idx)
    if base.op == 'tuple' and is_int_const(idx):
        i = cval(idx)
        if -len(base.args) <= i < len(base.args):
            return base.args[i]
    if base.op == 'phi' and idx.op == 'const':
        return phi(base.args[0], item(base.args[1], idx),
                   item(base.args[2], idx))
    if base.op == 'slice' and type_of(base) == 'bytes':
        lo = base.args[1]
        if is_int_const(idx) and cval(idx) >= 0 and lo is not NONE:
            return item(base.args[0], add(lo, idx))
    if base.op == 'bseq' and is_int_const(idx):
        r = bseq_index(base, cval(idx))
        if r is not None:
            return r
    if is_int_const(idx) and cval(idx) < 0 and type_of(base) == 'bytes':
        n = length(base)
        if is_int_const(n) and cval(n) + cval(idx) >= 0:
            return item(base, const(cval(n) + cval(idx)))
    if base.op == 'strm' and is_int_const(idx) and cval(idx) >= 0:
        x = prefix(base.args[2], add(idx, ONE))
        if x is not None and x is not base.args[2]:
            return item(strm(base.args[0], base.args[1], x), idx)
    return mk('item', base, idx)


ONE = const(1)


def prefix(x, hi):
    """The first hi octets of x, when that is no partly known slice."""
    r = slice_(x, NONE, hi)
    if r.op == 'slice' and x.op == 'bseq':
        return None
    return r


def strm(d, ctor, x):
    """Output of a feedback cipher in its initial state, encrypting or
    decrypting x: each octet depends on the input up to that octet only."""
    if is_const(x) and cval(x) == b'':
        return x
    if ctor.op == 'phi':
        return phi(ctor.args[0], strm(d, ctor.args[1], x),
                   strm(d, ctor.args[2], x))
    if x.op == 'phi':
        return phi(x.args[0], strm(d, ctor, x.args[1]),
                   strm(d, ctor, x.args[2]))
    if x.op == 'strm' and x.args[0] != d and x.args[1] is ctor:
        return x.args[2]
    if x.op == 'bseq' and x.args[0][0] == 'c' and \
            x.args[0][1].op == 'strm' and x.args[0][1].args[0] != d and \
            x.args[0][1].args[1] is ctor:
        # a known beginning, followed by other octets
        p = x.args[0][1].args[2]
        return bseq([('c', p), ('c', slice_(mk('strm', d, ctor, x),
                                            length(p), NONE))])
    return mk('strm', d, ctor, x)


def slice_(base, lo, hi):
    """base[lo:hi]; lo/hi terms, NONE when absent."""
    if is_int_const(lo) and cval(lo) == 0:
        lo = NONE
    if lo is NONE and hi is NONE:
        return base
    if lo is NONE and hi.op == 'len' and hi.args[0] is base:
        return base
    if base.op == 'const' and lo.op == 'const' and hi.op == 'const':
        try:
            return const(cval(base)[cval(lo):cval(hi)])
        except Exception:
            pass
    if base.op == 'fixed' and (lo is NONE or is_int_const(lo)) and \
            (hi is NONE or is_int_const(hi)):
        a, b, _ = slice(None if lo is NONE else cval(lo),
                        None if hi is NONE else cval(hi)).indices(
                            base.args[2])
        if a >= b:
            return const(b'' if base.args[1] == 'bytes' else '')
        if a == 0 and b == base.args[2]:
            return base
        return mk('slice', base, const(a), const(b))
    if base.op == 'bseq':
        if hi.op == 'const' and hi is not NONE and (
                lo is NONE or lo.op == 'const'):
            n = length(base)
            if is_int_const(n):
                a, b, _ = slice(None if lo is NONE else cval(lo),
                                cval(hi)).indices(cval(n))
                if a >= b:
                    return const(b'')
                lo = const(a) if a else NONE
                hi = const(b) if b < cval(n) else NONE
                if lo is NONE and hi is NONE:
                    return base
        r = bseq_slice(base, lo, hi)
        if r is not None:
            return r
    if base.op == 'strm':
        n = length(base.args[2])
        if isneg(lo):
            lo = add(n, lo)
        if isneg(hi):
            hi = add(n, hi)
        if is_int_const(n):
            a, b, _ = slice(None if lo is NONE else cval(lo),
                            None if hi is NONE else cval(hi)).indices(
                                cval(n)) if lo.op == hi.op == 'const' else (
                                    None, None, None)
            if a is not None:
                if a >= b:
                    return const(b'')
                lo, hi = const(a), const(b)
        if hi is not NONE and hi is not n:
            x = prefix(base.args[2], hi)
            if x is not None and x is not base.args[2]:
                return slice_(strm(base.args[0], base.args[1], x), lo, hi)
        elif hi is NONE:
            hi = n
        if is_int_const(lo) and cval(lo) == 0 or lo is NONE:
            if hi is n:
                return base
            lo = NONE
        return mk('slice', base, lo, hi)
    if base.op in ('strcat', 'hexoctet', 'hexnorm') and lo.op == 'const' and hi.op == 'const':
        r = strcat_slice(base, lo, hi)
        if r is not None:
            return r
    if base.op == 'tuple' and lo.op == 'const' and hi.op == 'const':
        return mk('tuple', *base.args[cval(lo):cval(hi)])
    if base.op == 'fmt':
        r = hexfmt_slice(base, lo, hi)
        if r is not None:
            return r
    if base.op == 'slice':
        # compose: (b[l1:h1])[l2:h2]  for non-negative l2/h2
        b, l1, h1 = base.args
        n = length(base)
        if is_int_const(n) and lo.op == hi.op == 'const' and is_int_const(
                l1):
            x, y, _ = slice(None if lo is NONE else cval(lo),
                            None if hi is NONE else cval(hi)).indices(cval(n))
            if x >= y:
                return const(b'' if type_of(base) == 'bytes' else '') \
                    if type_of(base) in ('bytes', 'str') else mk(
                        'slice', base, lo, hi)
            return slice_(b, add(l1, const(x)), add(l1, const(y)))
        if nonneg(l1):
            l1v = ZERO if l1 is NONE else l1
            if (lo is NONE or nonneg(lo)):
                nlo = l1v if lo is NONE else add(l1v, lo)
                if hi is NONE:
                    return slice_(b, nlo, h1)
                if nonneg(hi) and not isneg(hi):
                    nh = add(l1v, hi)
                    if h1 is NONE:
                        return slice_(b, nlo, nh)
                    gap = sub(h1, nh)
                    if is_int_const(gap) and nonneg(h1):
                        return slice_(b, nlo, nh if cval(gap) >= 0 else h1)
                if isneg(hi) and (h1 is NONE or isneg(h1)):
                    nh = hi if h1 is NONE else add(h1, hi)
                    return slice_(b, nlo, nh)
    return mk('slice', base, lo, hi)


HEXFMT = re.compile(r'^(?:\{0?:0(\d+)X\}|%0(\d+)X)$')


def hexoctet(t):
    if is_const(t):
        return const('%02X' % cval(t))
    if t.op == 'unhex':
        return mk('hexnorm', t.args[0])
    return mk('hexoctet', t)


def hexdigits(x, n):
    """The n (even) low hexadecimal digits of a non-negative integer."""
    b = bseq([('be', n // 2, bits(x, 0, 4 * n))])
    r = const('')
    for i in range(n // 2):
        r = strcat(r, hexoctet(item(b, const(i))))
    return r


def hexfmt(f, x):
    """'{:0nX}'.format(x), None when f is something else."""
    m = HEXFMT.match(f)
    if not m or type_of(x) not in ('int', None):
        return None
    n = int(m.group(1) or m.group(2))
    w = max_width(x)
    if x.op == 'exactint':
        w = x.args[1]
    if w is not None and w <= 4 * n and n % 2 == 0:
        return hexdigits(x, n)
    return mk('fmt', const('{:0%dX}' % n), x)


def hexfmt_slice(t, lo, hi):
    """The last digits of a formatted non-negative integer."""
    if t.args[0].op != 'const' or len(t.args) != 2 or not is_int_const(lo) \
            or hi is not NONE:
        return None
    f, x = cval(t.args[0]), t.args[1]
    m = HEXFMT.match(f) if isinstance(f, str) else None
    if not m or (x.op != 'exactint' and max_width(x) is None):
        return None
    k = -int(cval(lo))
    if k <= 0 or k % 2 or k > int(m.group(1)):
        return None
    return hexdigits(x, k)


def strcat_slice(t, lo, hi):
    xs = t.args if t.op == 'strcat' else (t,)
    lens = [length(x) for x in xs]
    if not all(is_int_const(n) for n in lens):
        return None
    total = sum(cval(n) for n in lens)
    a, b, _ = slice(None if lo is NONE else cval(lo),
                    None if hi is NONE else cval(hi)).indices(total)
    out = const('')
    pos = 0
    for x, n in zip(xs, lens):
        n = cval(n)
        l, h = max(a, pos), min(b, pos + n)
        if l < h:
            if l == pos and h == pos + n:
                out = strcat(out, x)
            else:
                y = slice_(x, const(l - pos), const(h - pos)) if \
                    x.op == 'fixed' or is_const(x) else mk(
                        'slice', x, const(l - pos), const(h - pos))
                out = strcat(out, y)
        pos += n
    return out


def nonneg(t):
    if t is NONE:
        return True
    if is_int_const(t):
        return cval(t) >= 0
    if t.op == 'lin':
        return t.args[0] >= 0 and all(k > 0 for a, k in t.args[1])
    return True


def isneg(t):
    if is_int_const(t):
        return cval(t) < 0
    if t.op == 'lin':
        return t.args[0] <= 0 and all(k < 0 for a, k in t.args[1])
    return False


# --------------------------------------------------------------------------
# octet sequences: parts are
#   ('k', bytes)          constant octets
#   ('b', term)           one octet of that integer value
#   ('be', n, term)       n octets, big-endian
#   ('c', term)           a chunk (all octets of a bytes-like term)
#   ('rep', over, parts)  the parts repeated for each element of `over`
#   ('alt', cond, pa, pb) pa if cond else pb
#   ('z', term)           that many zero octets

def part_of(t):
    if t.op == 'bseq':
        return list(t.args)
    if t.op == 'const' and isinstance(cval(t), (bytes, bytearray)):
        v = bytes(cval(t))
        return [('k', v)] if v else []
    if t.op == 'phi':
        return [('alt', t.args[0], tuple(part_of(t.args[1])),
                 tuple(part_of(t.args[2])))]
    return [('c', t)]


def norm_parts(parts):
    out = []
    for p in parts:
        if p[0] == 'k' and not p[1]:
            continue
        if p[0] == 'b' and is_int_const(p[1]) and 0 <= cval(p[1]) < 256:
            p = ('k', bytes([int(cval(p[1]))]))
        if p[0] == 'be' and is_int_const(p[2]):
            p = ('k', (int(cval(p[2])) % (256 ** p[1])).to_bytes(p[1], 'big'))
        if p[0] == 'be' and p[2].op == 'bits' and p[2].args[1] == 0 and \
                p[2].args[2] == 8 * p[1]:
            p = ('be', p[1], p[2].args[0])
        if p[0] == 'be' and p[2].op == 'exactint' and \
                (p[2].args[1] + 7) // 8 < p[1]:
            k = (p[2].args[1] + 7) // 8
            out.extend(norm_parts([('k', bytes(p[1] - k))]))
            p = ('be', k, p[2])
        if p[0] == 'be' and p[2].op == 'rd' and p[2].args[2] == p[1]:
            b, o, n = p[2].args
            p = ('c', slice_(b, o, add(o, const(n))))
        if p[0] == 'be' and p[1] == 1:
            p = ('b', bits(p[2], 0, 8))
        if p[0] == 'b' and p[1].op == 'item' and \
                type_of(p[1].args[0]) == 'bytes' and \
                nonneg_idx(p[1].args[1]):
            o = p[1].args[1]
            p = ('c', slice_(p[1].args[0], o, add(o, const(1))))
        if p[0] == 'z' and is_int_const(p[1]):
            p = ('k', b'\0' * max(0, cval(p[1])))
            if not p[1]:
                continue
        if p[0] == 'c':
            t = p[1]
            if t.op == 'bseq' or (t.op == 'const' and
                                  isinstance(cval(t), (bytes, bytearray))):
                for q in norm_parts(part_of(t)):
                    push(out, q)
                continue
            if t.op == 'slice' and t.args[1] is t.args[2] and \
                    t.args[1] is not NONE:
                continue
        if p[0] == 'alt':
            if p[1].op == 'const':
                for q in norm_parts(p[2] if cval(p[1]) else p[3]):
                    push(out, q)
                continue
            pa = tuple(norm_parts(p[2]))
            pb = tuple(norm_parts(p[3]))
            if pa == pb:
                for q in pa:
                    push(out, q)
                continue
            # common prefix / suffix factoring
            pre = []
            while pa and pb and pa[0] == pb[0]:
                pre.append(pa[0])
                pa, pb = pa[1:], pb[1:]
            suf = []
            while pa and pb and pa[-1] == pb[-1]:
                suf.insert(0, pa[-1])
                pa, pb = pa[:-1], pb[:-1]
            for x, y, neg in ((pa, pb, False), (pb, pa, True)):
                if not y and len(x) == 1 and x[0][0] == 'c':
                    q = seq_nonempty(x[0][1])
                    if q is not None and p[1] is (not_(q) if neg else q):
                        pre.append(x[0])
                        pa = pb = ()
                        break
            if pre and not pa and not pb:
                for q in pre:
                    push(out, q)
                pre = []
            for q in pre:
                push(out, q)
            pre = []
            if pa or pb:
                push(out, ('alt', p[1], pa, pb))
            for q in suf:
                push(out, q)
            continue
        if p[0] == 'rep':
            body = tuple(norm_parts(p[2]))
            if not body:
                continue
            p = ('rep', p[1], body)
        push(out, p)
    return out


def nonneg_idx(t):
    return not isneg(t)


def push(out, p):
    if not out:
        out.append(p)
        return
    q = out[-1]
    if p[0] == 'k' and q[0] == 'k':
        out[-1] = ('k', q[1] + p[1])
        return
    # consecutive slices of the same base
    if p[0] == 'c' and q[0] == 'c' and p[1].op == 'slice' and \
            q[1].op == 'slice':
        b1, l1, h1 = q[1].args
        b2, l2, h2 = p[1].args
        if b1 is b2 and h1 is not NONE and h1 is l2 and not isneg(h1):
            out.pop()
            push(out, ('c', slice_(b1, l1, h2)))
            return
    if p[0] == 'c' and q[0] == 'c' and p[1].op == 'slice' and \
            p[1].args[0].op == 'strm':
        s2, l2, h2 = p[1].args
        s1, l1, h1 = q[1].args if q[1].op == 'slice' else (
            q[1], NONE, length(q[1]))
        if s1.op == 'strm' and s1.args[:2] == s2.args[:2] and h1 is l2 and \
                length(s1.args[2]) is h1 and \
                prefix(s2.args[2], h1) is s1.args[2]:
            out.pop()
            push(out, ('c', slice_(s2, l1, h2)))
            return
    # big-endian recognition: be/b of bits(x, 8k..) followed by bits(x, ..)
    if p[0] in ('b', 'be') and q[0] in ('b', 'be'):
        x2, lo2, w2 = as_bits(p)
        x1, lo1, w1 = as_bits(q)
        if x1 is x2 and w1 is not None and w2 is not None and \
                lo1 == lo2 + w2 and w1 % 8 == 0 and w2 % 8 == 0:
            n = (w1 + w2) // 8
            out.pop()
            np = ('be', n, bits_raw(x1, lo2))
            if np[2].op == 'rd' and np[2].args[2] == n:
                b, o, _ = np[2].args
                push(out, ('c', slice_(b, o, add(o, const(n)))))
            else:
                push(out, np)
            return
    out.append(p)


def bits_raw(x, lo):
    return x if lo == 0 else bits(x, lo, None)


def as_bits(p):
    """-> (x, lo, width) of the octets of part p."""
    if p[0] == 'be':
        t, n = p[2], p[1]
        if t.op == 'bits' and t.args[2] is None:
            return t.args[0], t.args[1], 8 * n
        return t, 0, 8 * n
    t = p[1]
    if t.op == 'bits':
        x, lo, w = t.args
        if w is None:
            return x, lo, 8       # an octet: must fit, hence 8 bits
        return (x, lo, 8) if w == 8 else (t, 0, 8)
    return t, 0, 8


def bseq(parts):
    parts = norm_parts(parts)
    if not parts:
        return const(b'')
    if len(parts) == 1:
        if parts[0][0] == 'k':
            return const(parts[0][1])
        if parts[0][0] == 'c':
            return parts[0][1]
    return mk('bseq', *parts)


def part_len(p):
    """Length of a part as a term."""
    if p[0] == 'k':
        return const(len(p[1]))
    if p[0] == 'b':
        return const(1)
    if p[0] == 'be':
        return const(p[1])
    if p[0] == 'z':
        return p[1]
    if p[0] == 'c':
        return length(p[1])
    if p[0] == 'alt':
        la = parts_len(p[2])
        lb = parts_len(p[3])
        return phi(p[1], la, lb)
    if p[0] == 'rep' and len(p) == 3 and p[1].op in ('fixed', 'digest'):
        n, k = length(p[1]), parts_len(p[2])
        if is_int_const(n) and is_int_const(k):
            return const(cval(n) * cval(k))
    return mk('len', mk('bseq', p))


def parts_len(parts):
    r = ZERO
    for p in parts:
        r = add(r, part_len(p))
    return r


def length(t):
    if t.op == 'const':
        try:
            return const(len(cval(t)))
        except TypeError:
            return mk('len', t)
    if t.op == 'bseq':
        return parts_len(t.args)
    if t.op == 'tuple':
        return const(len(t.args))
    if t.op == 'slice':
        b, lo, hi = t.args
        if hi is not NONE and not isneg(hi) and \
                (lo is NONE or not isneg(lo)):
            return sub(hi, ZERO if lo is NONE else lo)
    if t.op == 'digest':
        n = DIGEST_SIZES.get(t.args[0])
        if n:
            return const(n)
    if t.op == 'strm':
        return length(t.args[2])
    if t.op == 'eiv':
        return const(t.args[1])
    if t.op == 'fixed':
        return const(t.args[2])
    if t.op in ('hexoctet', 'lowerhex', 'hexnorm'):
        return const(2)
    if t.op == 'binof':
        x = t.args[0]
        return const(x.args[1] + 2) if x.op == 'exactint' else add(
            mk('bitlen', x), const(2))
    if t.op == 'strcat':
        r = ZERO
        for x in t.args:
            r = add(r, length(x))
        return r
    if t.op == 'phi':
        return phi(t.args[0], length(t.args[1]), length(t.args[2]))
    return mk('len', t)


DIGEST_SIZES = {}


def _fixed(p):
    l = part_len(p)
    return int(cval(l)) if is_int_const(l) else None


def bseq_index(t, i):
    parts = t.args
    if i >= 0:
        for p in parts:
            n = _fixed(p)
            if n is None:
                if p is parts[-1] and p[0] == 'c':
                    return item(p[1], const(i))
                return None
            if i < n:
                return part_octet(p, i)
            i -= n
        return None
    i = -i - 1
    for p in reversed(parts):
        n = _fixed(p)
        if n is None:
            return None
        if i < n:
            return part_octet(p, n - 1 - i)
        i -= n
    return None


def part_octet(p, i):
    if p[0] == 'k':
        return const(p[1][i])
    if p[0] == 'b':
        return p[1]
    if p[0] == 'be':
        return bits(p[2], 8 * (p[1] - 1 - i), 8)
    if p[0] == 'z':
        return ZERO
    if p[0] == 'c':
        return item(p[1], const(i))
    return None


def bseq_slice(t, lo, hi):
    """Slice with bounds that fall on computable positions."""
    parts = list(t.args)
    if lo is NONE:
        lo = ZERO
    total = parts_len(parts)
    if isneg(lo):
        lo = add(total, lo)
    if hi is NONE:
        hi = total
    elif isneg(hi):
        hi = add(total, hi)
    pos = ZERO
    out = []
    started = False
    done = False
    if lo is hi:
        return const(b'')
    for p in parts:
        n = part_len(p)
        end = add(pos, n)
        a, b = None, None
        d_lo = sub(lo, pos)
        if not started:
            if is_int_const(d_lo):
                if cval(d_lo) == 0:
                    started = True
                    a = 0
                elif is_int_const(n) and 0 < cval(d_lo) < cval(n):
                    started = True
                    a = int(cval(d_lo))
                elif is_int_const(n) and cval(d_lo) >= cval(n):
                    pos = end
                    continue
                elif not is_int_const(n) and p[0] == 'c' and cval(d_lo) > 0:
                    # start inside a chunk of unknown length: allowed only
                    # when the chunk is the last one
                    if p is parts[-1] and hi is total:
                        return slice_(p[1], d_lo, NONE)
                    return None
                else:
                    return None
            else:
                dd = sub(end, lo)
                if is_int_const(dd) and cval(dd) <= 0:
                    pos = end
                    continue
                if is_int_const(dd) and p[0] == 'c' and cval(dd) > 0:
                    # starts a known distance before the end of this chunk
                    started = True
                    piece = slice_(p[1], scale(dd, -1), NONE)
                    d_hi = sub(hi, end)
                    if is_int_const(d_hi) and cval(d_hi) < 0:
                        return slice_(p[1], scale(dd, -1), d_hi)
                    out.append(('c', piece))
                    pos = end
                    if d_hi is ZERO:
                        done = True
                        break
                    continue
                # unknown: skip only if provably beyond
                pos = end
                continue
        if started:
            d_hi = sub(hi, pos)
            if is_int_const(d_hi):
                h = int(cval(d_hi))
                if h <= 0 and a is None:
                    done = True
                    break
                if is_int_const(n) and h < cval(n):
                    out.extend(part_slice(p, a or 0, h))
                    done = True
                    break
                if not is_int_const(n):
                    if p[0] == 'c':
                        out.append(('c', slice_(p[1], const(a or 0),
                                                const(h))))
                        done = True
                        break
                    return None
                out.extend(part_slice(p, a or 0, int(cval(n))))
            else:
                dd = sub(end, hi)
                if is_int_const(dd) and cval(dd) > 0:
                    k = int(cval(dd))
                    if is_int_const(n):
                        out.extend(part_slice(p, a or 0,
                                              int(cval(n)) - k))
                        done = True
                        break
                    if p[0] == 'c':
                        out.append(('c', slice_(p[1], const(a or 0),
                                                const(-k))))
                        done = True
                        break
                    return None
                if a:
                    if is_int_const(n):
                        out.extend(part_slice(p, a, int(cval(n))))
                    else:
                        return None
                else:
                    out.append(p)
            if end is hi:
                done = True
                break
        pos = end
    if not started:
        return None
    if not done and hi is not total:
        return None
    return bseq(out)


def part_slice(p, a, b):
    if p[0] == 'k':
        return [('k', p[1][a:b])]
    n = _fixed(p)
    if a == 0 and b == n:
        return [p]
    if p[0] == 'c':
        return [('c', slice_(p[1], const(a), const(b)))]
    out = []
    for i in range(a, b):
        out.append(('b', part_octet(p, i)))
    return out


def parts_to_bytes(parts):
    """Constant content of parts, or None."""
    out = b''
    for p in parts:
        if p[0] != 'k':
            return None
        out += p[1]
    return out


def concat(a, b):
    return bseq(part_of(a) + part_of(b))


# --------------------------------------------------------------------------
# conditions

NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>',
       'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<=',
        'is': 'is', 'is not': 'is not'}


def truth(t):
    """Static truth value of a term or None."""
    if t.op == 'const':
        try:
            return bool(cval(t))
        except Exception:
            return None
    if t.op in ('func', 'class', 'mod', 'bound', 'super'):
        return True
    if t.op == 'tuple':
        return len(t.args) > 0
    if t.op == 'bseq':
        for p in t.args:
            if p[0] in ('k', 'b', 'be'):
                return True
            if p[0] == 'c' and truth(p[1]):
                return True
    if t.op in ('slice', 'strcat', 'strm', 'digest', 'eiv'):
        n = length(t)
        if is_int_const(n):
            return cval(n) > 0
    if t.op == 'fixed':
        return t.args[2] > 0 if t.args[1] in ('bytes', 'str') else None
    if t.op == 'exactint' or t.op == 'call' and t.args[0] == 're.Match':
        return True
    return None


def seq_nonempty(t):
    """The condition that makes a string or octet string true."""
    if t.op not in ('phi', 'const') and type_of(t) in ('bytes', 'str'):
        n = length(t)
        if n.op != 'phi':
            return cmp_('>=', n, ONE)
    return None


def not_(t):
    v = truth(t)
    if v is not None:
        return const(not v)
    q = seq_nonempty(t)
    if q is not None:
        return not_(q)
    if t.op != 'phi' and type_of(t) == 'int':
        return cmp_('==', t, ZERO)
    if t.op == 'not':
        return t.args[0] if type_of(t.args[0]) == 'bool' else mk('bool',
                                                                   t.args[0])
    if t.op == 'cmp':
        return cmp_(NEG[t.args[0]], t.args[1], t.args[2])
    if t.op == 'and':
        return or_(*[not_(a) for a in t.args])
    if t.op == 'or':
        return and_(*[not_(a) for a in t.args])
    if t.op == 'phi':
        return phi(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if t.op == 'bool':
        return mk('not', t.args[0])
    return mk('not', t)


def bool_(t):
    v = truth(t)
    if v is not None:
        return const(v)
    if type_of(t) == 'bool':
        return t
    if t.op == 'bool':
        return t
    q = seq_nonempty(t)
    if q is not None:
        return q
    if t.op != 'phi' and type_of(t) == 'int':
        return cmp_('!=', t, ZERO)
    if t.op == 'phi':
        return cond_phi(t.args[0], bool_(t.args[1]), bool_(t.args[2]))
    return mk('bool', t)


def cond_phi(c, a, b):
    """phi of booleans as and/or."""
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(not_(c), b)
    if a is TRUE:
        return or_(c, b)
    if b is TRUE:
        return or_(not_(c), a)
    return mk('phi', c, a, b)


def and_(*ts):
    out = []
    for t in ts:
        if t.op == 'and':
            sub_ = t.args
        else:
            sub_ = (t,)
        for s in sub_:
            v = truth(s)
            if v is True:
                continue
            if v is False:
                return FALSE
            if s not in out:
                out.append(s)
    for s in out:
        if not_simple(s) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def not_simple(s):
    if s.op == 'cmp':
        return mk('cmp', NEG[s.args[0]], s.args[1], s.args[2])
    if s.op == 'not':
        x = s.args[0]
        return x if type_of(x) == 'bool' else mk('bool', x)
    if s.op == 'bool':
        return mk('not', s.args[0])
    return mk('not', s)


def or_(*ts):
    out = []
    for t in ts:
        if t.op == 'or':
            sub_ = t.args
        else:
            sub_ = (t,)
        for s in sub_:
            v = truth(s)
            if v is False:
                continue
            if v is True:
                return TRUE
            if s not in out:
                out.append(s)
    for s in out:
        if not_simple(s) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def definitely_not_none(t):
    if t.op == 'const':
        return cval(t) is not None
    return t.op in ('lin', 'bits', 'rd', 'bseq', 'obj', 'func', 'class',
                    'mod', 'tuple', 'len', 'bitlen', 'mpi', 'digest', 'fmt',
                    'hexof', 'slice', 'bound', 'cmp', 'mpienc') or (
        type_of(t) not in (None, 'none')) or libmod(t) or (
        t.op == 'call' and t.args[0] == 're.Match')


def eq_text(a, v):
    """Equality of hexadecimal text with a constant, or None."""
    if a.op not in ('strcat', 'hexoctet'):
        return None
    out = []
    for p in (a.args if a.op == 'strcat' else (a,)):
        if is_const(p):
            if not v.startswith(cval(p)):
                return FALSE
            v = v[len(cval(p)):]
        elif p.op == 'hexoctet':
            try:
                x = int(v[:2], 16)
            except ValueError:
                return FALSE
            if '%02X' % x != v[:2]:
                return FALSE
            out.append(cmp_('==', p.args[0], const(x)))
            v = v[2:]
        else:
            return None
    if v:
        return FALSE
    return and_(*out)


def text_units(t):
    """One entry per character pair of a hexadecimal text, or None."""
    out = []
    for p in (t.args if t.op == 'strcat' else (t,)):
        if is_const(p):
            s = cval(p)
            if len(s) % 2:
                return None
            out += [s[i:i + 2] for i in range(0, len(s), 2)]
        elif p.op == 'hexoctet':
            out.append(p)
        else:
            return None
    return out


def eq_texts(a, b):
    """Equality of two hexadecimal texts, octet by octet, or None."""
    for t in (a, b):
        if t.op not in ('strcat', 'hexoctet'):
            return None
    x, y = text_units(a), text_units(b)
    if x is None or y is None:
        return None
    if len(x) != len(y):
        return FALSE
    out = []
    for p, q in zip(x, y):
        if isinstance(p, str) and isinstance(q, str):
            if p != q:
                return FALSE
        elif isinstance(p, str):
            out.append(eq_text(q, p))
        elif isinstance(q, str):
            out.append(eq_text(p, q))
        elif p is not q:
            out.append(cmp_('==', p.args[0], q.args[0]))
    return and_(*out)


def differ(a, b):
    """Provably unequal whatever their symbols stand for."""
    ta, tb = type_of(a), type_of(b)
    if ta == tb == 'int':
        d = sub(a, b)
        if is_int_const(d):
            return cval(d) != 0
        if a.op == b.op == 'exactint' or 'exactint' in (a.op, b.op):
            w = [t.args[1] if t.op == 'exactint' else
                 cval(t).bit_length() if is_int_const(t) else None
                 for t in (a, b)]
            return None not in w and w[0] != w[1]
        return False
    if a.op == b.op == 'strcat' or {a.op, b.op} == {'strcat', 'hexoctet'}:
        x = list(a.args) if a.op == 'strcat' else [a]
        y = list(b.args) if b.op == 'strcat' else [b]
        for p, q in ((x, y), (x[::-1], y[::-1])):
            for u, v in zip(p, q):
                if u is v:
                    continue
                if is_const(u) and is_const(v):
                    s, t = cval(u), cval(v)
                    if p is x:
                        n = min(len(s), len(t))
                        if s[:n] != t[:n]:
                            return True
                    elif s and t:
                        n = min(len(s), len(t))
                        if s[-n:] != t[-n:]:
                            return True
                    if len(s) == len(t):
                        continue
                    break
                if u.op == v.op == 'hexoctet':
                    continue
                break
        return False
    if ta == tb == 'bytes' and (a.op == 'bseq' or b.op == 'bseq'):
        x = a.args if a.op == 'bseq' else (('c', a),)
        y = b.args if b.op == 'bseq' else (('c', b),)
        if len(x) == len(y):
            same = [p == q for p, q in zip(x, y)]
            if same.count(False) == 1:
                p, q = [(p, q) for p, q in zip(x, y) if p != q][0]
                if p[0] == q[0] == 'k':
                    return p[1] != q[1]
                if p[0] == q[0] and p[0] in ('be',) and p[1] == q[1]:
                    return differ(p[2], q[2])
                if p[0] == q[0] == 'b':
                    return differ(p[1], q[1])
        i = 0
        while i < len(x) and i < len(y):
            p, q = x[i], y[i]
            if p == q:
                i += 1
                continue
            if p[0] == q[0] == 'k':
                n = min(len(p[1]), len(q[1]))
                return p[1][:n] != q[1][:n]
            break
    return False


def eq_octets(a, v):
    if not isinstance(v, (bytes, bytearray)) or type_of(a) != 'bytes':
        return None
    n = length(a)
    if is_int_const(n) and cval(n) != len(v):
        return FALSE
    if a.op == 'bseq':
        i = 0
        for p in a.args:
            n = _fixed(p)
            if n is None:
                return None
            if p[0] == 'k' and p[1] != v[i:i + n]:
                return FALSE
            i += n
    return None


def identity(t):
    """Modules, classes and functions: equal only to themselves."""
    return t.op in ('class', 'func', 'mod') or libmod(t)


def libmod(t):
    return t.op == 'ext' and str(t.args[0]).startswith(
        ('Crypto.', 'pgp.cipher.'))


def moment(t):
    """The Unix time of a time, through conditions."""
    if t.op == 'dt':
        return t.args[0]
    if t.op == 'phi':
        a = moment(t.args[1])
        if a is not None:
            b = moment(t.args[2])
            if b is not None:
                return phi(t.args[0], a, b)
    return None


def cmp_(op, a, b):
    if op in ('is', 'is not') and (a.op == 'const' or b.op == 'const'):
        # identity with None/True/False
        if b.op != 'const':
            a, b = b, a
        if b is NONE:
            if a is NONE:
                return const(op == 'is')
            if definitely_not_none(a):
                return const(op == 'is not')
            if a.op == 'phi':
                return cond_phi(a.args[0], cmp_(op, a.args[1], b),
                                cmp_(op, a.args[2], b))
            return mk('cmp', op, a, b)
        if a.op == 'const':
            r = cval(a) is cval(b) or a is b
            return const(r if op == 'is' else not r)
        if a.op == 'phi':
            return cond_phi(a.args[0], cmp_(op, a.args[1], b),
                            cmp_(op, a.args[2], b))
        return mk('cmp', op, a, b)
    if op in ('is', 'is not'):
        if a is b:
            return const(op == 'is')
        if identity(a) and identity(b) and not (libmod(a) and libmod(b)):
            return const(op == 'is not')
    if op in ('<', '<=', '>', '>=', '==', '!='):
        x, y = moment(a), moment(b)
        if x is not None and y is not None:
            return cmp_(op, x, y)
    if op in ('in', 'not in'):
        if b.op == 'tuple' and not b.args:
            return const(op == 'not in')
        if b.op == 'phi':
            return cond_phi(b.args[0], cmp_(op, a, b.args[1]),
                            cmp_(op, a, b.args[2]))
        if b.op == 'const' and isinstance(cval(b), (tuple, list, set,
                                                    frozenset, dict)):
            b = mk('tuple', *[const(x) for x in cval(b)])
        if b.op == 'tuple':
            rs = [cmp_('==', a, x) for x in b.args]
            r = or_(*rs)
            return r if op == 'in' else not_(r)
        if a.op == 'const' and b.op == 'const':
            try:
                r = cval(a) in cval(b)
                return const(r if op == 'in' else not r)
            except Exception:
                pass
        return mk('cmp', op, a, b)
    if a.op == 'const' and b.op == 'const':
        x, y = cval(a), cval(b)
        try:
            r = {'==': lambda: x == y, '!=': lambda: x != y,
                 '<': lambda: x < y, '<=': lambda: x <= y,
                 '>': lambda: x > y, '>=': lambda: x >= y}[op]()
            return const(r)
        except Exception:
            return mk('cmp', op, a, b)
    if op in ('==', '!='):
        if a is b:
            return const(op == '==')
        if a.op == 'phi' and b.op == 'const':
            return cond_phi(a.args[0], cmp_(op, a.args[1], b),
                            cmp_(op, a.args[2], b))
        if b.op == 'phi' and a.op == 'const':
            return cond_phi(b.args[0], cmp_(op, a, b.args[1]),
                            cmp_(op, a, b.args[2]))
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return const(op == '!=')
            r = and_(*[cmp_('==', x, y) for x, y in zip(a.args, b.args)])
            return r if op == '==' else not_(r)
        if identity(a) and identity(b) and not (libmod(a) and libmod(b)):
            return const(op == '!=')
        for x, y in ((a, b), (b, a)):
            # these decodings are one-to-one
            if x.op == 'dec' and x.args[2] in ('strict', 'surrogateescape'):
                if y.op == 'dec' and x.args[1:] == y.args[1:]:
                    return cmp_(op, x.args[0], y.args[0])
                if is_const(y) and isinstance(cval(y), str):
                    try:
                        return cmp_(op, x.args[0], const(
                            cval(y).encode(x.args[1], x.args[2])))
                    except UnicodeError:
                        return const(op == '!=')
        ta, tb = type_of(a), type_of(b)
        if ta and tb and {ta, tb} in ({'str', 'bytes'}, {'int', 'bytes'},
                                      {'int', 'str'}):
            return const(op == '!=')
        if (a is NONE and definitely_not_none(b)) or (
                b is NONE and definitely_not_none(a)):
            return const(op == '!=')
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        r = None
        if b.op == 'const':
            r = eq_text(a, cval(b)) if isinstance(cval(b), str) else \
                eq_octets(a, cval(b))
        elif ta == tb == 'bytes' and is_int_const(length(a)) and \
                is_int_const(length(b)) and length(a) is not length(b):
            r = FALSE
        if r is None and b.op != 'const':
            if differ(a, b):
                r = FALSE
            else:
                r = eq_texts(a, b)
        if r is not None:
            return r if op == '==' else not_(r)
        if a.op == 'const' or (b.op != 'const' and a.id > b.id):
            a, b = b, a
        return mk('cmp', op, a, b)
    # orderings: linear normal form; integers only
    if type_of(a) == 'int' or type_of(b) == 'int' or is_int_const(a) \
            or is_int_const(b):
        ta, tb = type_of(a), type_of(b)
        if ta not in ('float', 'str', 'bytes') and tb not in (
                'float', 'str', 'bytes'):
            d = sub(a, b)
            if is_int_const(d):
                v = int(cval(d))
                return const({'<': v < 0, '<=': v <= 0, '>': v > 0,
                              '>=': v >= 0}[op])
            c, p = lin_parts(d)
            first = min(p.items(), key=lambda q: q[0].id)
            if op == '<':
                op, c = '<=', c + 1
            elif op == '>':
                op, c = '>=', c - 1
            if first[1] < 0:
                c, p = -c, {x: -k for x, k in p.items()}
                op = {'<=': '>=', '>=': '<='}[op]
            return mk('cmp', op, mk_lin(0, p), const(-c))
    if op in ('>', '>='):
        a, b = b, a
        op = SWAP[op]
    return mk('cmp', op, a, b)


def phi(c, a, b):
    if a is b:
        return a
    v = truth(c)
    if v is True:
        return a
    if v is False:
        return b
    if c.op == 'not':
        return phi(bool_(c.args[0]), b, a)
    if c.op == 'cmp' and c.args[0] in ('!=', 'is not', 'not in', '>='):
        # canonical polarity
        if c.args[0] != '>=':
            return phi(not_(c), b, a)
    if type_of(a) == 'bool' and type_of(b) == 'bool':
        if a is TRUE or a is FALSE or b is TRUE or b is FALSE:
            return cond_phi(c, a, b)
    # phi(c, phi(c, x, y), z) -> phi(c, x, z)
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    for x, y, neg in ((a, b, False), (b, a, True)):
        if is_const(y) and isinstance(cval(y), (bytes, str)) and \
                not cval(y) and x.op != 'phi':
            q = seq_nonempty(x)
            if q is not None and c is (not_(q) if neg else q):
                return x
    return mk('phi', c, a, b)


# --------------------------------------------------------------------------
# traversal and printing

def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in walk_tuple(a):
                yield x


def walk_tuple(tp):
    for a in tp:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in walk_tuple(a):
                yield x


def subterms(t, skip_cond=False):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if skip_cond and x.op == 'phi':
            stack.extend(x.args[1:])
            continue
        stack.extend(children(x))


def contains(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


def rewrite(t, fn, memo=None):
    """Bottom-up structural rewriting; fn(T) -> T or None."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r

    def conv(a):
        if isinstance(a, T):
            return rewrite(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(conv(x) for x in a)
        return a
    pre = fn(t)
    if pre is not None:
        memo[t.id] = pre
        return pre
    nargs = tuple(conv(a) for a in t.args)
    if nargs == t.args:
        r = t
    else:
        r = rebuild(t.op, nargs)
    memo[t.id] = r
    return r


def rebuild(op, a):
    if op == 'bseq':
        return bseq(list(a))
    if op == 'listv':
        return mk('listv', *settled_parts(a))
    if op == 'phi':
        return phi(*a)
    if op == 'cmp':
        return cmp_(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'bool':
        return bool_(a[0])
    if op == 'slice':
        return slice_(*a)
    if op == 'item':
        return item(*a)
    if op == 'bits':
        return bits(*a)
    if op == 'len':
        return length(a[0])
    if op == 'lin':
        r = const(a[0])
        for at, k in a[1]:
            r = add(r, scale(at, k))
        return r
    if op == 'rd':
        return rd(*a)
    if op == 'strm':
        return strm(*a)
    if op == 'shl' and is_int_const(a[1]) and 0 <= cval(a[1]) < 10000:
        return scale(a[0], 1 << cval(a[1]))
    if op == 'enc':
        return encode(*a)
    if op == 'dec':
        return decode(*a)
    return mk(op, *a)


def settled_parts(ps):
    """List parts whose conditions have become known."""
    out = []
    for p in ps:
        if isinstance(p, tuple) and p and p[0] == 'alt' and p[1] in (
                TRUE, FALSE):
            out.extend(settled_parts(p[2] if p[1] is TRUE else p[3]))
        elif isinstance(p, tuple) and p and p[0] == 'alt':
            out.append(('alt', p[1], tuple(settled_parts(p[2])),
                        tuple(settled_parts(p[3]))))
        else:
            out.append(p)
    return out


def show_part(p, d):
    if p[0] == 'k':
        return p[1].hex() if p[1] else "''"
    if p[0] == 'b':
        return '[%s]' % show(p[1], d)
    if p[0] == 'be':
        return 'be%d(%s)' % (p[1], show(p[2], d))
    if p[0] == 'z':
        return 'zeros(%s)' % show(p[1], d)
    if p[0] == 'c':
        return '<%s>' % show(p[1], d)
    if p[0] == 'rep':
        return 'rep{%s: %s}' % (show(p[1], d),
                                ' '.join(show_part(q, d) for q in p[2]))
    if p[0] == 'alt':
        return 'alt{%s ? %s : %s}' % (
            show(p[1], d), ' '.join(show_part(q, d) for q in p[2]),
            ' '.join(show_part(q, d) for q in p[3]))
    return repr(p)


def show(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d <= 0:
        return '..'
    d -= 1
    a = t.args
    op = t.op
    if op == 'const':
        return repr(cval(t))
    if op == 'sym':
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return '%s[%s:%s]' % (show(a[0], d),
                              '' if a[1] is NONE else show(a[1], d),
                              '' if a[2] is NONE else show(a[2], d))
    if op == 'lin':
        s = ' + '.join((show(x, d) if k == 1 else '%d*%s' % (k, show(x, d)))
                       for x, k in a[1])
        return '(%s%s)' % (s, ' + %d' % a[0] if a[0] else '')
    if op == 'bits':
        return 'bits(%s, %s, %s)' % (show(a[0], d), a[1], a[2])
    if op == 'rd':
        return 'be_read(%s, %s, %d)' % (show(a[0], d), show(a[1], d), a[2])
    if op == 'bseq':
        return '{' + ' | '.join(show_part(p, d) for p in a) + '}'
    if op == 'cmp':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if op == 'phi':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d),
                                       show(a[2], d))
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join(
            [show(x, d) for x in a[1]] +
            ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if op == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(
            [show(x, d) for x in a[2]] +
            ['%s=%s' % (k, show(v, d)) for k, v in a[3]]))
    if op in ('func', 'class', 'mod', 'obj'):
        return '%s' % (a[0],)
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
