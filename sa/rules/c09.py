"""C09: where every secret random value comes from."""
from .. import terms as tm
from ..draws import Draws, understood
from ..secmodel import BLOCK
from ..sigmodel import F, Key
from ..terms import const, cval, is_const, mk
from .c01 import KEYLEN
from .c10 import elgamal, rsa
from .common import Run, SPEC

WORD = None


def tup(*a):
    return mk('tuple', *a)


class World(Draws):
    """Draws, and the public-key operations made with them."""

    def __init__(self, result=None):
        self.encrypts, self.signs, self.decrypts = [], [], []
        self.result = result
        Draws.__init__(self, {
            '.encrypt': self.enc, '.sign': self.sgn, '.decrypt': self.dec,
            'Crypto.Cipher.PKCS1_v1_5.new': self.pkcs})

    def pkcs(self, ip, name, args, kw, st, node):
        return mk('call', name, tuple(ip.snapshot(a, st) for a in args), ())

    def enc(self, ip, b, args, kw, st, node):
        t = ip.snapshot(b, st)
        if not (rsa(t) or elgamal(t)):
            return NotImplemented
        self.encrypts.append((t, [ip.snapshot(x, st) for x in args]))
        if elgamal(t):
            return tup(F('c1', 128), F('c2', 128))
        return F('c1', 128)

    def sgn(self, ip, b, args, kw, st, node):
        t = ip.snapshot(b, st)
        if t.op != 'call' or not str(t.args[0]).endswith('.construct'):
            return NotImplemented
        self.signs.append((t, [ip.snapshot(x, st) for x in args]))
        return tup(tm.exactint('r', 159), tm.exactint('s', 158))

    def dec(self, ip, b, args, kw, st, node):
        t = ip.snapshot(b, st)
        if not rsa(t):
            return NotImplemented
        a = [ip.snapshot(x, st) for x in args]
        self.decrypts.append((t, a))
        return self.result


def streams(t):
    """The cipher operations in a term: (constructor, data)."""
    out = []
    for s in tm.subterms(t):
        if s.op == 'strm' and s.args[1].op == 'call':
            out.append((s.args[1], s.args[2]))
    return out


def keyword(ctor, name, default=None):
    for k, v in ctor.args[2]:
        if k == name:
            return v
    return default


class Case(object):
    def __init__(self, c, sp, w, lab):
        self.c, self.sp, self.w, self.lab = c, sp, w, lab

    def run(self, fn, *args):
        r = Run(self.c, self.sp, fn, list(args),
                intrinsics=self.w.intrinsics())
        self.where = r.where
        return r

    def ob(self, rule, ok, msg, key=None):
        self.c.ob(rule, key or self.lab, ok, msg, self.where)

    def octets(self, rule, t, n, what):
        v = self.w.fresh_octets(t, n)
        self.ob(rule, True if v is True else None if v is None else False,
                '%s: %s' % (what, v))
        return v is True

    def distinct(self, rule, ts, what, key=None):
        seen = []
        bad = None
        for t in ts:
            for s in tm.subterms(t):
                if s in self.w.by and s in seen:
                    bad = s
            seen += [s for s in tm.subterms(t) if s in self.w.by]
        self.ob(rule, bad is None, '%s is used more than once (the draw is '
                'shared)' % what, key or self.lab)

    def message(self, body, algorithm):
        """Key and prefix of an encrypted message body; None if not seen."""
        for ctor, data in streams(body):
            if not ctor.args[1]:
                continue
            key = ctor.args[1][0]
            iv = keyword(ctor, 'IV') or (
                ctor.args[1][2] if len(ctor.args[1]) > 2 else None)
            if iv is None:
                continue
            mode = ctor.args[1][1] if len(ctor.args[1]) > 1 else None
            if mode is not None and is_const(mode) and cval(mode) == 7:
                return key, iv
            n = BLOCK[algorithm]
            if is_const(iv) and not any(cval(iv)):
                return key, tm.slice_(data, tm.ZERO, const(n))
            return key, iv
        return None

    def number(self, rule, t, lo, his, what):
        """t is one strong draw over lo <= t < one of his."""
        d = self.w.by.get(t)
        if d is None:
            ds = self.w.inside(t)
            if not ds and understood(t):
                return self.ob(rule, False, '%s depends on no random draw'
                               % what)
            if ds and not any(x.strong for x in ds):
                return self.ob(rule, False, '%s comes from a generator that '
                               'is not cryptographic' % what)
            return self.ob(rule, None, '%s is not a plain draw: %s' % (
                what, tm.show(t, 4)))
        if not d.strong:
            return self.ob(rule, False, '%s comes from a generator that is '
                           'not cryptographic' % what)
        if d.lo is None or d.hi is None:
            if d.size is not None and is_const(d.size):
                return self.ob(rule, None, '%s has no given range' % what)
            return self.ob(rule, None, '%s has no known range' % what)
        if not is_const(d.lo):
            return self.ob(rule, None, '%s starts at %s' % (
                what, tm.show(d.lo, 2)))
        if cval(d.lo) != lo:
            return self.ob(rule, False, '%s starts at %s instead of %d' % (
                what, cval(d.lo), lo))
        if d.hi in his:
            return self.ob(rule, True, '')
        diff = tm.sub(d.hi, his[0])
        if is_const(diff) or is_const(d.hi) or \
                d.hi.op in ('shr', 'floordiv', 'div', 'bits') or \
                tm.sub(d.hi, const(1)).op in ('shr', 'floordiv', 'div',
                                              'bits'):
            return self.ob(rule, False, '%s is drawn below %s instead of %s' %
                           (what, tm.show(d.hi, 3), tm.show(his[0], 3)))
        self.ob(rule, None, '%s is drawn below %s' % (what, tm.show(d.hi, 3)))


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'fresh')
    c.rule('session key', 'a generated session key is drawn anew for every '
           'message, with the cipher\'s key length', 20)
    c.rule('prefix', 'the prefix of an encrypted message is one block, drawn '
           'anew for every message', 20)
    c.rule('salt', 'a generated passphrase salt is eight octets, drawn anew '
           'for every message', 10)
    c.rule('padding', 'the padding of an ElGamal-wrapped session key is drawn '
           'octet by octet for each recipient', 5)
    c.rule('exponent', 'the ElGamal exponent covers its whole range and is '
           'drawn anew for each recipient', 5)
    c.rule('nonce', 'a signature nonce covers its whole range and is drawn '
           'anew for each signature', 3)
    c.rule('sentinel', 'the sentinel for failed unwrapping is drawn anew',
           3)
    c.rule('given', 'a value the caller passed is the one used', 10)

    algs = sorted(KEYLEN)
    for algo in (1, 16):
        for cipher in algs:
            for protected in (True, False):
                public(c, sp, algo, cipher, protected)
            given(c, sp, algo, cipher)
    for cipher in algs:
        for s2k in (1, 3):
            for protected in (True, False):
                symmetric(c, sp, cipher, s2k, protected)
            symmetric_given(c, sp, cipher, s2k)
        symmetric_default(c, sp, cipher)
        for protected in (True, False):
            data(c, sp, cipher, protected)
    for halg in (1, 2, 8, 9, 10, 11, 3):
        sign(c, sp, 17, halg)
        sign_given(c, sp, 17, halg)
    for algo in (1, 2):
        unwrap(c, sp, algo)


def messages(k, r, cipher, n):
    """[(key, prefix)] of the messages of a run."""
    out = []
    if r.value is None or r.value.op != 'tuple' or len(r.value.args) != n:
        return None
    for b in r.value.args:
        m = k.message(b.args[1] if b.op == 'tuple' else b, cipher)
        if m is None:
            return None
        out.append(m)
    return out


def fresh_message(k, ms, cipher, given=False):
    if ms is None:
        k.ob('prefix', None, 'the encryption of the message is not '
             'understood')
        return False
    for key, iv in ms:
        if not given:
            k.octets('session key', key, KEYLEN[cipher], 'the session key')
        k.octets('prefix', iv, BLOCK[cipher], 'the prefix')
    k.distinct('prefix', [iv for key, iv in ms], 'the prefix')
    if not given:
        k.distinct('session key', [key for key, iv in ms], 'the session key')
    # neither is made from the other
    for key, iv in ms:
        if set(k.w.inside(key)) & set(k.w.inside(iv)):
            k.ob('prefix', False, 'prefix and session key are made from the '
                 'same draw')
    return True


def public(c, sp, algo, cipher, protected):
    lab = 'algorithm %d,cipher %d,%s' % (
        algo, cipher, 'protected' if protected else 'plain')

    def go():
        keys = [Key(4, algo), Key(4, algo, tag='_2')]
        k = Case(c, sp, World(), lab)
        r = k.run('public', tup(*[x.packet() for x in keys]), const(cipher),
                  tm.TRUE if protected else tm.FALSE)
        ms = messages(k, r, cipher, 2)
        if not fresh_message(k, ms, cipher):
            return
        ps = [a for t, a in k.w.encrypts]
        if len(ps) != 4:
            return k.ob('session key', None, 'the primitive is used %d times'
                        % len(ps))
        for i, a in enumerate(ps):
            key = ms[i // 2][0]
            n = KEYLEN[cipher]
            m = a[0]
            if algo == 16:
                m = tm.slice_(m, const(128 - n - 3), const(128))
            c.same('session key', lab, tm.slice_(m, const(1), const(n + 1)),
                   key, k.where)
        if algo == 16:
            pads = []
            for a in ps:
                pads.append(tm.slice_(a[0], const(2), const(128 - n - 4)))
                pad(k, pads[-1], 128 - n - 6)
            k.distinct('padding', pads, 'the padding')
            for i, a in enumerate(ps):
                p = keys[i % 2].vals['p']
                k.number('exponent', a[1], 1, (
                    tm.add(p, const(-1)), p), 'the exponent')
            k.distinct('exponent', [a[1] for a in ps], 'the exponent')
    c.guard('session key', lab, go)


def pad(k, t, n):
    ds = k.w.inside(t)
    if not ds:
        return k.ob('padding', False if understood(t) else None,
                    'the padding depends on no random draw')
    if not any(d.strong for d in ds):
        return k.ob('padding', False, 'the padding comes from a generator '
                    'that is not cryptographic')
    sizes = [cval(d.size) for d in ds if d.size is not None and
             is_const(d.size)]
    if len(sizes) == len(ds) and sum(sizes) < n and not any(
            s.op in ('apply', 'each', 'loopout', 'loopvar', 'unk')
            and not tm.length(s) for s in ()):
        direct = all(s.op != 'apply' for s in tm.subterms(t)) or \
            max(sizes) < n
        if direct and max(sizes) < n and len(ds) == 1:
            return k.ob('padding', False, 'the padding has %d drawn octets '
                        'instead of %d' % (sum(sizes), n))
        return k.ob('padding', None, 'the padding is not understood')
    k.ob('padding', True, '')


def given(c, sp, algo, cipher):
    lab = 'algorithm %d,cipher %d' % (algo, cipher)

    def go():
        key = Key(4, algo)
        n = KEYLEN[cipher]
        sk = F('own key', n)
        k = Case(c, sp, World(), lab)
        r = k.run('public_given', key.packet(), const(cipher), sk)
        ms = messages(k, r, cipher, 1)
        if not fresh_message(k, ms, cipher, True):
            return
        c.same('given', lab, ms[0][0], sk, k.where)
        if len(k.w.encrypts) == 1:
            m = k.w.encrypts[0][1][0]
            if algo == 16:
                m = tm.slice_(m, const(128 - n - 3), const(128))
            c.same('given', lab + ',wrapped',
                   tm.slice_(m, const(1), const(n + 1)), sk, k.where)
    c.guard('given', lab, go)


def salts(k, r, n):
    """The salts and the encrypted session keys of a run."""
    out = []
    for b in r.value.args:
        # version, cipher, specifier, hash, salt
        out.append(tm.slice_(b.args[0], const(4), const(12)))
    return out


def symmetric(c, sp, cipher, s2k, protected):
    lab = 'passphrase,s2k %d,cipher %d,%s' % (
        s2k, cipher, 'protected' if protected else 'plain')

    def go():
        k = Case(c, sp, World(), lab)
        r = k.run('symmetric', const(cipher), const(s2k),
                  tm.TRUE if protected else tm.FALSE)
        ms = messages(k, r, cipher, 2)
        if not fresh_message(k, ms, cipher):
            return
        ss = salts(k, r, 2)
        for s in ss:
            k.octets('salt', s, 8, 'the salt')
        k.distinct('salt', ss, 'the salt')
        k.distinct('salt', [ss[0], ms[0][0], ms[0][1]],
                   'the draw of salt, session key or prefix')
    c.guard('session key', lab, go)


def symmetric_default(c, sp, cipher):
    lab = 'passphrase,default,cipher %d' % cipher

    def go():
        k = Case(c, sp, World(), lab)
        r = k.run('symmetric_default', const(cipher))
        ms = messages(k, r, cipher, 1)
        if not fresh_message(k, ms, cipher):
            return
        k.octets('salt', salts(k, r, 1)[0], 8, 'the salt')
    c.guard('session key', lab, go)


def symmetric_given(c, sp, cipher, s2k):
    lab = 'passphrase,s2k %d,cipher %d' % (s2k, cipher)

    def go():
        k = Case(c, sp, World(), lab)
        sk, salt = F('own key', KEYLEN[cipher]), F('own salt', 8)
        r = k.run('symmetric_given', const(cipher), const(s2k), salt, sk)
        ms = messages(k, r, cipher, 1)
        if not fresh_message(k, ms, cipher, True):
            return
        c.same('given', lab, tup(ms[0][0], salts(k, r, 1)[0]), tup(sk, salt),
               k.where)
    c.guard('given', lab, go)


def data(c, sp, cipher, protected):
    lab = 'data,cipher %d,%s' % (
        cipher, 'protected' if protected else 'plain')

    def go():
        k = Case(c, sp, World(), lab)
        r = k.run('data', const(cipher), F('own key', KEYLEN[cipher]),
                  const(b'some text'), tm.TRUE if protected else tm.FALSE)
        fresh_message(k, messages(k, r, cipher, 2), cipher, True)
    c.guard('prefix', lab, go)


def sign(c, sp, algo, halg):
    lab = 'algorithm %d,hash %d' % (algo, halg)

    def go():
        key = Key(4, algo)
        k = Case(c, sp, World(), lab)
        k.run('sign', key.packet('secret'), const(halg))
        ns = [a[1] for t, a in k.w.signs if len(a) > 1]
        if len(ns) != 2:
            return k.ob('nonce', None, 'the primitive is used %d times' %
                        len(ns))
        q = key.vals['q']
        for n in ns:
            k.number('nonce', n, 1, (q,), 'the nonce')
        k.distinct('nonce', ns, 'the nonce')
    c.guard('nonce', lab, go)


def sign_given(c, sp, algo, halg):
    lab = 'nonce,algorithm %d,hash %d' % (algo, halg)

    def go():
        key = Key(4, algo)
        n = tm.exactint('own nonce', 150)
        k = Case(c, sp, World(), lab)
        k.run('sign_given', key.packet('secret'), const(algo), const(halg), n)
        ns = [a[1] for t, a in k.w.signs if len(a) > 1]
        if len(ns) != 1:
            return k.ob('given', None, 'the primitive is used %d times' %
                        len(ns))
        c.same('given', lab, ns[0], n, k.where)
    c.guard('given', lab, go)


def unwrap(c, sp, algo):
    for twice in (False, True):
        lab = 'algorithm %d,%s' % (algo, 'twice' if twice else 'once')

        def go(twice=twice, lab=lab):
            key = Key(4, algo)
            sk = F('sk', 16)
            from ..secmodel import octet_sum
            m = tm.bseq([('k', b'\7'), ('c', sk), (
                'be', 2, tm.bits(octet_sum(sk, 16), 0, 16))])
            k = Case(c, sp, World(m), lab)
            from ..sigmodel import mpi, whole
            q, x = mpi('cipher', 1020)
            pk = whole(1, [('k', b'\3'), ('c', key.kid),
                           ('k', bytes([algo]))] + q)
            k.run('unwrap_twice' if twice else 'unwrap',
                  key.packet('secret'), pk)
            ss = [a[1] for t, a in k.w.decrypts if len(a) > 1]
            if len(ss) != (2 if twice else 1):
                return k.ob('sentinel', None, 'the primitive is used %d times'
                            % len(ss))
            for s in ss:
                d = k.w.by.get(s)
                if d is None or not d.strong:
                    v = k.w.maybe(s)
                    k.ob('sentinel', None if v is None else False,
                         'the sentinel: %s' % v)
                elif d.size is not None and is_const(d.size) and \
                        cval(d.size) < 16:
                    k.ob('sentinel', False, 'the sentinel has only %d octets'
                         % cval(d.size))
                else:
                    k.ob('sentinel', True, '')
            k.distinct('sentinel', ss, 'the sentinel')
        c.guard('sentinel', lab, go)
