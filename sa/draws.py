"""Random values: every draw is a distinct symbol with its source and range.
"""
from . import terms as tm
from .terms import const, cval, is_const, mk

STRONG_OBJECTS = ('Crypto.Random.new', 'Crypto.Random.random.StrongRandom',
                  'Crypto.Random.OSRNG.new', 'random.SystemRandom',
                  'secrets.SystemRandom', 'Crypto.Random.Fortuna')
STRONG = ('os.urandom', 'Crypto.Random.get_random_bytes',
          'secrets.token_bytes', 'secrets.randbelow', 'secrets.randbits',
          'Crypto.Util.number.getRandomRange',
          'Crypto.Util.number.getRandomInteger',
          'Crypto.Util.number.getRandomNBitInteger') + tuple(
    'Crypto.Random.random.' + x for x in ('randint', 'randrange',
                                          'getrandbits'))
WEAK_OBJECTS = ('random.Random',)
WEAK = tuple('random.' + x for x in (
    'randint', 'randrange', 'getrandbits', 'random', 'randbytes', 'choice',
    'uniform')) + ('uuid.uuid1', 'uuid.uuid4', 'time.time')


class Draw(object):
    def __init__(self, term, strong, size=None, lo=None, hi=None, name=''):
        self.term, self.strong, self.size = term, strong, size
        self.lo, self.hi, self.name = lo, hi, name    # lo <= value < hi


def maker(b):
    """The constructor a term is made by."""
    return b.args[0] if b.op == 'call' and isinstance(b.args[0], str) else ''


class Draws(object):
    def __init__(self, extra=None):
        self.draws = []
        self.by = {}
        self.extra = extra or {}

    def intrinsics(self):
        h = {'.read': self.meth, '.randint': self.meth,
             '.randrange': self.meth, '.getrandbits': self.meth,
             '.randbytes': self.meth, '.random': self.meth}
        for n in STRONG + WEAK:
            if n != 'time.time':
                h[n] = self.func
        h.update(self.extra)
        return h

    def base(self, ip, b, st):
        if b.op == 'obj':
            o = st.heap[b.args[0]]
            c = getattr(o, 'ctor', None)
            if o.kind == 'ext' and c is not None:
                return str(c.args[0])
            return ''
        return maker(ip.snapshot(b, st))

    def meth(self, ip, b, args, kw, st, node):
        n = self.base(ip, b, st)
        name = node.func.attr if hasattr(node, 'func') and hasattr(
            node.func, 'attr') else 'read'
        if n in STRONG_OBJECTS or n in WEAK_OBJECTS:
            if n == 'Crypto.Random.new' or n in ('Crypto.Random.OSRNG.new',
                                                 'Crypto.Random.Fortuna'):
                name = 'read'
            return self.draw(ip, name, [ip.snapshot(a, st) for a in args],
                             kw, n in STRONG_OBJECTS)
        return NotImplemented

    def func(self, ip, name, args, kw, st, node):
        return self.draw(ip, name.rsplit('.', 1)[-1],
                         [ip.snapshot(a, st) for a in args], kw,
                         name in STRONG)

    def draw(self, ip, name, args, kw, strong):
        i = len(self.draws)
        tag = '%s%d' % ('draw' if strong else 'weak', i)
        size = lo = hi = None
        one = tm.ONE if hasattr(tm, 'ONE') else const(1)
        if kw:
            return NotImplemented
        if name in ('read', 'urandom', 'get_random_bytes', 'token_bytes',
                    'randbytes'):
            if len(args) != 1:
                return NotImplemented
            size = args[0]
            if is_const(size) and isinstance(cval(size), int) and \
                    0 < cval(size) < 100000:
                t = tm.fixed(tag, 'bytes', cval(size))
            else:
                t = tm.sym(tag, 'bytes')
        elif name == 'randint' and len(args) == 2:
            lo, hi = args[0], tm.add(args[1], one)
            t = tm.sym(tag, 'int')
        elif name in ('randrange', 'getRandomRange', 'randbelow') and \
                len(args) in (1, 2):
            lo, hi = (const(0), args[0]) if len(args) == 1 else args
            t = tm.sym(tag, 'int')
        elif name in ('getrandbits', 'randbits', 'getRandomInteger',
                      'getRandomNBitInteger') and len(args) == 1:
            lo, size = const(0), args[0]
            if is_const(size):
                hi = const(1 << cval(size))
            t = tm.sym(tag, 'int')
        elif not strong:
            t = tm.sym(tag, None)
        else:
            return NotImplemented
        d = Draw(t, strong, size, lo, hi, name)
        self.draws.append(d)
        self.by[t] = d
        return t

    # ------------------------------------------------------------- verdicts
    def inside(self, t):
        """The draws a term depends on."""
        return [self.by[s] for s in tm.subterms(t) if s in self.by]

    def fresh_octets(self, t, n):
        """True: t is n octets drawn whole from the generator; else the
        reason it is not; None when it cannot be told."""
        few = self.entropy(t)
        if few is not None and few < 8 * n:
            return ('it depends on no random draw' if not few else
                    'only %d bits of it are drawn, instead of %d' % (
                        few, 8 * n))
        parts = t.args if t.op == 'bseq' else (
            ('k', cval(t)),) if is_const(t) else (('c', t),)
        total = 0
        seen = set()
        for p in parts:
            if p[0] == 'k':
                return 'it contains the constant octets %s' % bytes(
                    p[1])[:8].hex()
            if p[0] != 'c':
                return self.maybe(t)
            x = p[1]
            lo = 0
            if x.op == 'slice':
                a, lo, hi = x.args
                if a not in self.by or not is_const(lo) or not is_const(hi) \
                        or cval(lo) is None or cval(hi) is None:
                    return self.maybe(t)
                lo, hi = cval(lo), cval(hi)
                x = a
            if x not in self.by:
                return self.maybe(t)
            d = self.by[x]
            if not d.strong:
                return 'it comes from a generator that is not cryptographic'
            if x.op != 'fixed':
                return None
            if p[1].op != 'slice':
                hi = x.args[2]
            span = set((x, i) for i in range(lo, hi))
            if span & seen:
                return 'the same octets are used twice in it'
            seen |= span
            total += hi - lo
        if total != n:
            return 'it has %d octets instead of %d' % (total, n)
        return True

    def entropy(self, t):
        """A bound on the bits of all cryptographic draws t is made of."""
        if not understood(t):
            return None
        n = 0
        for d in self.inside(t):
            if not d.strong:
                return None
            if d.hi is not None and is_const(d.hi):
                n += max(cval(d.hi), 1).bit_length()
            elif d.size is not None and is_const(d.size):
                n += 8 * cval(d.size)
            else:
                return None
        return n

    def maybe(self, t):
        ds = self.inside(t)
        if not ds and understood(t):
            return 'it depends on no random draw'
        if ds and not any(d.strong for d in ds):
            return 'it comes from a generator that is not cryptographic'
        return None


def understood(t):
    return not any(s.op in ('unk', 'excat', 'loopvar', 'loopout', 'each',
                            'ext', 'mcall', 'xcall', 'attr', 'exists') or
                   s.op == 'call' and not str(s.args[0]).startswith(
                       ('Crypto.Cipher', 'Crypto.PublicKey', 'Crypto.Hash',
                        'Crypto.Util.number', 'int', 'time.', 'datetime.',
                        'zlib.', 'calendar.'))
                   for s in tm.subterms(t))
