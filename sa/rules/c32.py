"""C32: compression."""
from .. import equiv
from .. import terms as tm
from ..terms import NONE, ZERO, const, is_const, cval, mk
from .common import Run, SPEC
from .c14 import F

FRAMING = {1: 'raw', 2: 'zlib', 3: 'bz2'}
HEAD = (b'\x78\x01', b'\x78\x5e', b'\x78\x9c', b'\x78\xda')


def joined(parts):
    return tm.bseq([('c', p) for p in parts]) if parts else const(b'')


def wbits(ctor):
    """The framing a zlib (de)compressor object was asked for."""
    name, args, kw = ctor.args[0], ctor.args[1], dict(ctor.args[2])
    pos = 2 if name == 'zlib.compressobj' else 0
    w = args[pos] if len(args) > pos else kw.get('wbits')
    if w is None:
        return 'zlib'
    if not is_const(w):
        return None
    w = cval(w)
    return 'raw' if w < 0 else 'zlib' if w <= 15 else None


def framing(ctor):
    n = ctor.args[0] if ctor.op == 'call' else None
    if n in ('zlib.compressobj', 'zlib.decompressobj'):
        return wbits(ctor)
    if n in ('bz2.BZ2Compressor', 'bz2.BZ2Decompressor'):
        return 'bz2'
    return None


def fed(log, method):
    """All octets a (de)compressor was given, in order; None if it was used
    in any other way."""
    out = []
    for name, args in log:
        if name != method or len(args) != 1:
            return None
        out.append(args[0])
    return out


def one_part(t):
    if t.op == 'bseq' and len(t.args) == 1 and t.args[0][0] == 'c':
        return t.args[0][1]
    return t


def comp(t):
    """('packed'|'unpacked' graph) of a complete sequence of outputs of one
    compressor or decompressor, else None."""
    parts = t.args if t.op == 'bseq' else (('c', t),)
    calls = []
    for p in parts:
        if p[0] != 'c' or p[1].op not in ('xcall', 'call'):
            return None
        calls.append(p[1])
    if len(calls) == 1 and calls[0].op == 'call':
        name, args = calls[0].args[:2]
        kind = {'zlib.compress': ('packed', 'zlib'),
                'bz2.compress': ('packed', 'bz2'),
                'zlib.decompress': ('unpacked', 'zlib'),
                'bz2.decompress': ('unpacked', 'bz2')}.get(name)
        if kind is None:
            return None
        if name == 'zlib.decompress' and len(args) > 1:
            if not is_const(args[1]):
                return None
            kind = ('unpacked', 'raw' if cval(args[1]) < 0 else 'zlib')
        return mk(kind[0], kind[1], args[0])
    if any(x.op != 'xcall' for x in calls):
        return None
    ctor = calls[0].args[0]
    if any(x.args[0] is not ctor for x in calls):
        return None
    fr = framing(ctor)
    if fr is None:
        return None
    packs = ctor.args[0] in ('zlib.compressobj', 'bz2.BZ2Compressor')
    last = calls[-1]
    log = list(last.args[1])
    if last.args[2] == 'flush':
        if last.args[3]:
            return None                         # a partial flush
    elif packs:
        return None                             # never completed
    else:
        log.append((last.args[2], last.args[3]))
    data = fed(log, 'compress' if packs else 'decompress')
    if data is None:
        return None
    # every output must be there, in the order it was produced; a
    # decompressor given only a stream header has produced nothing
    want = [(tuple(log[:i]), x) for i, x in enumerate(log)]
    if not packs and want and is_const(want[0][1][1][0]) and \
            cval(want[0][1][1][0]) in HEAD and (
                calls[0].args[1] != () or len(calls) < len(want)):
        want = want[1:]
    got = [(tuple(x.args[1]), (x.args[2], x.args[3])) for x in calls
           if x.args[2] != 'flush']
    if [(a, b) for a, b in want] != got:
        return None
    return mk('packed' if packs else 'unpacked', fr, joined(data))


def norm(t):
    """Canonical form of compressed and decompressed octets."""
    t0 = t
    if t.op == 'slice' and t.args[1] is const(2) and t.args[2] is const(-4):
        x = comp(t.args[0])
        if x is not None and x.op == 'packed' and x.args[0] == 'zlib':
            return mk('packed', 'raw', x.args[1])
    x = comp(t)
    if x is None:
        one = one_part(t)
        return norm(one) if one is not t else t0
    if x.op == 'unpacked' and x.args[0] == 'zlib' and \
            x.args[1].op == 'bseq':
        p = x.args[1].args
        if p and p[0] == ('k', b'\x78\x9c') or p and p[0][0] == 'k' and \
                p[0][1] in HEAD:
            return mk('unpacked', 'raw', tm.bseq(list(p[1:])))
    return x


PLAIN = {'bseq', 'slice', 'const', 'sym', 'fixed', 'lin', 'len', 'packed',
         'unpacked', 'rd', 'item', 'mixedup', 'bits'}


def readable(t):
    """Is t made only of octet-string operations and complete, ordinary uses
    of (de)compressors, whose meaning is therefore known?"""
    if t.op in ('xcall', 'call'):
        if t.op == 'call':
            return comp(t) is not None and readable(t.args[1][0])
        if framing(t.args[0]) is None or len(t.args[3]) > 2:
            return False
        return all(readable(x) for n, a in t.args[1] for x in a) and all(
            readable(x) for x in t.args[3])
    if t.op not in PLAIN:
        return False
    for a in t.args:
        if isinstance(a, tm.T) and not readable(a):
            return False
        if t.op == 'bseq':
            for x in a:
                if isinstance(x, tm.T) and not readable(x):
                    return False
    return True


def readable_cond(t):
    if t.op in ('and', 'or', 'not', 'cmp', 'bool'):
        return all(readable_cond(x) for x in t.args if isinstance(x, tm.T))
    return readable(t)


def compare(c, rule, key, got, want, where, facts=()):
    """Equality up to the meaning of (de)compressor calls."""
    got = norm(got)
    if got is want:
        return c.ob(rule, key, True, '', where)
    try:
        diffs, n = equiv.compare(got, want, equiv.env_of(*facts))
    except equiv.TooMany:
        return c.ob(rule, key, None, 'too many cases', where)
    left = [d for d in diffs if norm(one_part(d.a)) is not one_part(d.b)]
    if not left:
        return c.ob(rule, key, True, '%d cases' % n, where)
    for d in left:
        if readable(d.a) and readable(d.b):
            return c.ob(rule, key, False, 'when %s it is %s, required %s' % (
                d.when(), tm.show(d.a, 9), tm.show(d.b, 9)), where)
    return c.same(rule, key, got, want, where, facts)


def cancel(ip, b, args, kw, st, node):
    """A decompressor fed exactly what a compressor of its framing wrote."""
    o = st.heap[b.args[0]]
    if o.kind != 'ext' or len(args) != 1:
        return NotImplemented
    r = mk('xcall', o.ctor, o.log, 'decompress', tuple(ip.flat(args, st)),
           ())
    data = fed(list(o.log) + [('decompress', r.args[3])], 'decompress')
    fr = framing(o.ctor)
    if data is None or fr is None:
        return NotImplemented
    whole = joined(data)
    if whole.op == 'bseq' and fr == 'zlib' and whole.args[0][0] == 'k' and \
            whole.args[0][1] in HEAD:
        fr, whole = 'raw', tm.bseq(list(whole.args[1:]))
    p = norm(one_part(whole))
    w = st.w(b.args[0])
    w.log = w.log + (('decompress', r.args[3]),)
    if p.op == 'packed':
        if p.args[0] == fr:
            return p.args[1]
        return mk('mixedup', fr, p)
    return r


def drained(ip, b, args, kw, st, node):
    """After complete input a decompressor holds nothing back."""
    o = st.heap[b.args[0]]
    if o.kind == 'ext' and o.ctor.op == 'call' and \
            o.ctor.args[0] == 'zlib.decompressobj' and not args:
        return const(b'')
    return NotImplemented


INVERSE = {'.decompress': cancel, '.flush': drained}


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'compress')
    c.rule('compress', 'the outputs of compress, in order, and of flush are '
           'the complete compressed form, in the framing of the algorithm, '
           'of all octets given, in order', 12)
    c.rule('decompress', 'the outputs of decompress, in order, and of flush '
           'are everything a decompressor of the algorithm\'s framing '
           'returns for the octets given, in order', 12)
    c.rule('inverse', 'a decompressor returns exactly what its compressor '
           'was given', 8)
    c.rule('direction', 'an object used to compress refuses to decompress '
           'and the other way round', 6)
    c.rule('flushed', 'an object refuses to be used after it was flushed', 9)
    c.rule('packet', 'a compressed packet holds the compressed form of the '
           'packets it was made from, in order, and yields them again', 6)

    chunks = [[tm.sym('d1', 'bytes')],
              [tm.sym('d1', 'bytes'), tm.sym('d2', 'bytes')],
              [tm.sym('d1', 'bytes'), tm.sym('d2', 'bytes'),
               tm.sym('d3', 'bytes')]]
    levels = [NONE, const(1), const(9)] if c.tier == 'quick' else \
        [NONE] + [const(i) for i in range(1, 10)]

    def same(rule, key, a, want):
        compare(c, rule, key, a.value, want, a.where)

    def refused(rule, key, a):
        if a.accept is tm.FALSE:
            return c.ob(rule, key, True, 'always raises', a.where)
        if a.accept is tm.TRUE or readable_cond(a.accept):
            return c.ob(rule, key, False, 'accepted when %s' % tm.show(
                a.accept, 9), a.where)
        c.ob(rule, key, None, 'accepted when %s' % tm.show(a.accept, 9),
             a.where)

    for alg in (0, 1, 2, 3):
        for level in levels:
            for ch in chunks:
                key = '%d/level %s/%d' % (alg, tm.show(level), len(ch))
                d = tm.bseq([('c', x) for x in ch])
                args = [const(alg), level, mk('tuple', *ch)]

                def go1():
                    a = Run(c, sp, 'pack', args)
                    same('compress', key, a,
                         mk('packed', FRAMING[alg], d) if alg else
                         one_part(d))
                c.guard('compress', key, go1)

                def go2():
                    a = Run(c, sp, 'unpack', args)
                    same('decompress', key, a,
                         mk('unpacked', FRAMING[alg], d) if alg else
                         one_part(d))
                c.guard('decompress', key, go2)

                def go3(flag):
                    a = Run(c, sp, 'pack_unpack', args + [const(flag)],
                            intrinsics=INVERSE)
                    compare(c, 'inverse', key, one_part(a.value),
                            one_part(d), a.where)
                c.guard('inverse', key, lambda: go3(False))
        if not alg:
            continue
        for first in (True, False):
            key = '%d/%s' % (alg, 'compress' if first else 'decompress')

            def go4():
                a = Run(c, sp, 'direction', [const(alg), const(first),
                                             tm.sym('d', 'bytes')])
                refused('direction', key, a)
            c.guard('direction', key, go4)
            for what in (('compress', 'flush') if first else
                         ('decompress', 'flush')):
                key2 = key + '/then ' + what

                def go5():
                    a = Run(c, sp, 'after_flush',
                            [const(alg), const(first), const(what),
                             tm.sym('d', 'bytes')])
                    refused('flushed', key2, a)
                c.guard('flushed', key2, go5)
    for n in (0, 3, 200, 70000):
        args = [F('x', n), const('nm'),
                tm.rd(F('t', 4), ZERO, 4)]
        for alg in (0, 1, 2, 3):
            key = '%d/%d octets' % (alg, n)

            def go6():
                ref = Run(c, sp, 'packet_octets', args)
                a = Run(c, sp, 'packets', [const(alg), NONE] + args)
                same('packet', key, a,
                     mk('packed', FRAMING[alg], ref.value) if alg
                     else ref.value)
            c.guard('packet', key, go6)

            def go7():
                a = Run(c, sp, 'opened', [const(alg), NONE] + args,
                        intrinsics=INVERSE)
                ref = Run(c, sp, 'opened_ref', args)
                c.same('packet', key + '/opened', a.value, ref.value,
                       a.where)
            c.guard('packet', key + '/opened', go7)
