"""C31: what a signature over a document covers."""
from .. import terms as tm
from .. import textfn
from ..sigmodel import F, Item, Key, Sig
from ..terms import const
from .c03 import ALG, hashed_data, trailer_of, tup
from .common import Run, SPEC


def ends_with(parts, tail):
    """What of the parts comes before the tail; None when they do not end
    with it."""
    want = list(tm.norm_parts(tail))
    got = list(parts)
    while want:
        if not got:
            return None
        g, w = got[-1], want[-1]
        if g == w:
            got.pop()
            want.pop()
        elif g[0] == 'k' and w[0] == 'k':
            n = min(len(g[1]), len(w[1]))
            if g[1][-n:] != w[1][-n:]:
                return None
            got[-1] = ('k', g[1][:-n])
            want[-1] = ('k', w[1][:-n])
            for x in (got, want):
                if not x[-1][1]:
                    x.pop()
        else:
            return None
    return tm.bseq(got)


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'text')
    sg = SPEC(c, 'sigs')
    c.rule('text', 'for a canonical-text signature the octets of a text are '
           'its UTF-8 octets with CR, LF and CRLF replaced by CRLF; for any '
           'other they are its UTF-8 octets', 10)
    c.rule('binary', 'the octets of a binary document are signed unchanged',
           4)
    c.rule('signed', 'the digest of a signature made is over those octets '
           'and the trailer', 8)
    c.rule('verified', 'the digest of a signature checked is over those '
           'octets and the trailer', 8)
    deep = c.tier == 'thorough'
    text = tm.sym('text', 'str')
    data = tm.bseq([('k', b'\r'), ('c', F('data', 40)), ('k', b'\n')])
    kinds = {0: 'plain', 1: 'canonical'}
    want = {k: Run(c, sp, f, [text]).value for k, f in kinds.items()}

    def decide(rule, lab, got, kind, where):
        r = textfn.compare(got, want[kind], text, deep)
        if r[0] is True:
            c.count('texts compared', r[1])
            c.ob(rule, lab, True, 'equal on %d representative texts' % r[1],
                 where)
        elif r[0] is None:
            c.ob(rule, lab, None, r[1], where)
        else:
            c.ob(rule, lab, False, 'the text %r gives %r, required %r' % r,
                 where)

    def direct(rule, lab, fn, args, kind):
        def go():
            r = Run(c, sp, fn, args)
            if r.value.op == 'noreturn' or r.accept is not tm.TRUE:
                return c.same(rule, lab, r.accept, tm.TRUE, r.where)
            decide(rule, lab, r.value, kind, r.where)
        c.guard(rule, lab, go)

    for kind in kinds:
        for ver in (4, 3, 2):
            direct('text', 'v%d,type %d' % (ver, kind), 'text',
                   [text, const(kind), const(ver)], kind)
            for f in (b'u', b't'):
                direct('text', 'v%d,type %d,read as %r' % (ver, kind, f),
                       'packet', [const(f), text, const(kind), const(ver)],
                       kind)
        direct('text', 'type %d' % kind, 'text_default', [text, const(kind)],
               kind)
    for ver in (4, 3, 2):
        for lab, fn, args in (
                ('given', 'binary', []),
                ('read', 'packet', [const(b'b')])):
            def go():
                r = Run(c, sp, fn, args + [data, const(0), const(ver)])
                c.same('binary', 'v%d,%s' % (ver, lab),
                       tm.phi(r.accept, r.value, const('fails')), data,
                       r.where)
            c.guard('binary', 'v%d,%s' % (ver, lab), go)

    # whole signatures
    def covered(rule, lab, d, tail, kind, where):
        pre = ends_with(d.args, tail) if d.op == 'bseq' else None
        if pre is None:
            # anything but the trailer after the document is C03's subject
            return c.ob(rule, lab, None, 'trailer not found at the end of '
                        'the octets', where)
        if kind is None:
            return c.same(rule, lab, pre, data, where)
        decide(rule, lab, pre, kind, where)

    def made(lab, fn, args, ver, st, algo, halg, kind, skip):
        def go():
            r = Run(c, sg, fn, args)
            if r.value.op == 'noreturn':
                return c.ob('signed', lab, False, 'always raises', r.where)
            if r.value.op != 'tuple' or len(r.value.args) != 3:
                return c.ob('signed', lab, None, 'result not in parts',
                            r.where)
            content, h2, values = r.value.args
            tr, bad = trailer_of(content, ver, st, algo, halg)
            got = hashed_data(r.value, ALG[halg], skip)
            if tr is None or not got:
                return c.ob('signed', lab, None, 'no digest found', r.where)
            for d in got:
                covered('signed', lab, d, tr, kind, r.where)
        c.guard('signed', lab, go)

    def checked(lab, fn, args, trailer, halg, kind, skip):
        def go():
            r = Run(c, sg, fn, args)
            if r.value.op == 'noreturn':
                return c.ob('verified', lab, False, 'always raises', r.where)
            got = hashed_data(r.accept, ALG[halg], skip)
            if not got:
                return c.ob('verified', lab, None, 'no digest found', r.where)
            for d in got:
                covered('verified', lab, d, trailer, kind, r.where)
        c.guard('verified', lab, go)

    for algo in (1, 3, 17, 20) if deep else (1, 17):
        key = Key(4, algo)
        skip = (tm.bseq(key.octets),)
        secret = Item('key', key, None, True)
        public = Item('key', key)
        for ver in (4, 3):
            halg = 8 if ver == 4 else 2
            for what, doc, st, kind in (
                    ('text', text, 0, 0), ('text', text, 1, 1),
                    ('binary', data, 0, None)):
                lab = 'algorithm %d,v%d,%s,type %d' % (algo, ver, what, st)
                made(lab + ',message', 'sign_document', [
                    tup(*secret.packets), const(what), doc, const(ver),
                    const(st), const(halg)], ver, st, algo, halg, kind, skip)
                made(lab + ',given', 'sign_given', [
                    tup(*secret.packets), doc, const(ver), const(st),
                    const(halg)], ver, st, algo, halg, kind, skip)
                s = Sig(ver, st, algo, halg, [key.kid])
                checked(lab + ',message', 'verify_document', [
                    tup(*public.packets), const(what), doc, s.packet],
                    s.trailer, halg, kind, skip)
                checked(lab + ',given', 'verify_given', [
                    tup(*public.packets), doc, s.packet],
                    s.trailer, halg, kind, skip)
