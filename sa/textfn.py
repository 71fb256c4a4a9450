"""Deciding whether two functions of a text are the same function.

A function of a text is given by its value graph.  Graphs made only of
encodings, replacements, splitting, joining and regular expressions with
constant patterns look at a bounded window of characters at a time, so they
are compared on every text over a set of representative characters up to a
length beyond that window.
"""
import itertools
import random
import re

from . import terms as tm
from .rint import Ev, Undef
from .terms import cval

METHODS = ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'startswith',
           'endswith', 'replace', 'encode', 'decode', 'find', 'count',
           'split', 'rsplit', 'join', 'splitlines', 'partition',
           'rpartition', 'title', 'expandtabs', 'swapcase', 'translate',
           'casefold', 'removesuffix', 'removeprefix')
RE = ('sub', 'split', 'findall', 'subn', 'escape')
# characters some text function or other treats in its own way
LINES = '\r\n'
SPECIAL = '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
OTHER = 'a \t\0-\x7f\x80\xe9\u20ac\U0001f511\ufeff\u00df'


class Unsupported(Exception):
    pass


def plain(v):
    """Lists come as ('tuple', ...)."""
    if isinstance(v, tuple) and v and v[0] == 'tuple':
        return [plain(x) for x in v[1:]]
    return v


def wrap(v):
    if isinstance(v, (list, tuple)):
        return ('tuple',) + tuple(wrap(x) for x in v)
    return v


class TextEv(Ev):
    def __init__(self, pins):
        Ev.__init__(self, random.Random(0), pins)

    def ev(self, t):
        op, a = t.op, t.args
        if op in ('mcall', 'call', 'tuple', 'list', 'listv', 'ext', 'none',
                  'bseq', 'strjoin'):
            return getattr(self, 'o_' + op)(t, *a)
        if op in ('const', 'lin', 'bits', 'item', 'slice', 'len',
                  'phi', 'bool', 'not', 'and', 'or', 'cmp', 'strcat', 'dec',
                  'enc', 'brep', 'fmt'):
            r = Ev.ev(self, t)
            if isinstance(r, tuple) and r and r[0] == 'u':
                raise Unsupported(op)
            return r
        raise Unsupported(op)

    def o_ext(self, t, *a):
        n = str(a[0])
        if n.startswith('re.') and isinstance(getattr(re, n[3:], None),
                                              re.RegexFlag):
            return int(getattr(re, n[3:]))
        return ('ext', a[0])

    def o_none(self, t, *a):
        return None

    def o_tuple(self, t, *a):
        return ('tuple',) + tuple(self(x) for x in a)

    o_list = o_tuple

    def parts(self, ps):
        out = []
        for p in ps:
            if p[0] == 'rep':
                src = plain(self(p[1]))
                if not isinstance(src, (list, str, bytes)):
                    raise Unsupported('loop')
                es = [s for q in p[2] for x in q[1:] if hasattr(x, 'op')
                      for s in tm.subterms(x)
                      if s.op == 'each' and s.args[0] is p[1]]
                for v in src:
                    e = TextEv(dict(self.pins))
                    for s in es:
                        e.val[s] = wrap(v) if isinstance(v, list) else v
                    out += e.parts(p[2])
            elif p[0] == 'k':
                out.append(p)
            elif len(p) == 2:
                out.append((p[0], self(p[1])))
            else:
                raise Unsupported('part')
        return out

    def o_listv(self, t, *ps):
        return ('tuple',) + tuple(v for k, v in self.parts(ps))

    def o_bseq(self, t, *ps):
        out = bytearray()
        for k, v in self.parts(ps):
            if k == 'b' and isinstance(v, int):
                out.append(v)
            elif k in ('c', 'k') and isinstance(v, (bytes, bytearray)):
                out += v
            else:
                raise Unsupported('part ' + k)
        return bytes(out)

    def o_strjoin(self, t, sep, xs):
        v = plain(self(xs))
        s = self(sep)
        if not isinstance(v, (list, str)) or not isinstance(s, str):
            raise Unsupported('join')
        return s.join(v)

    def args(self, xs, kws):
        return ([plain(self(x)) for x in xs],
                {k: plain(self(v)) for k, v in kws})

    def o_mcall(self, t, b, name, xs=(), kws=()):
        v = plain(self(b))
        args, kw = self.args(xs, kws)
        if isinstance(v, (str, bytes)):
            if name not in METHODS:
                raise Unsupported(name)
            if name == 'join':
                args = [list(x) if isinstance(x, list) else x for x in args]
        elif isinstance(v, re.Pattern):
            if name not in RE:
                raise Unsupported(name)
        elif v == ('ext', 're') or v == 're':
            return self.regex(name, args, kw)
        else:
            raise Unsupported('%s of %r' % (name, type(v)))
        try:
            return wrap(getattr(v, name)(*args, **kw))
        except (TypeError, ValueError, AttributeError, LookupError,
                re.error) as e:
            raise Undef(str(e))

    def regex(self, name, args, kw):
        if name == 'compile':
            return re.compile(*args, **kw)
        if name not in RE:
            raise Unsupported(name)
        try:
            return wrap(getattr(re, name)(*args, **kw))
        except (TypeError, ValueError, re.error) as e:
            raise Undef(str(e))

    def o_call(self, t, name, xs=(), kws=()):
        args, kw = self.args(xs, kws)
        if isinstance(name, str) and name.startswith('re.'):
            return self.regex(name[3:], args, kw)
        if name in ('bytes', 'bytearray') and len(args) == 1 and \
                isinstance(args[0], (bytes, bytearray)):
            return bytes(args[0])
        raise Unsupported(str(name))


def texts(chars, n):
    for k in range(n + 1):
        for t in itertools.product(chars, repeat=k):
            yield ''.join(t)


def alphabet(*graphs):
    """The representative characters: those above and those the graphs'
    constants mention."""
    out = dict.fromkeys(LINES + SPECIAL + OTHER)
    for g in graphs:
        for s in tm.subterms(g):
            if s.op == 'const':
                v = cval(s)
                if isinstance(v, bytes):
                    v = v.decode('latin-1')
                if isinstance(v, str) and len(v) < 40:
                    out.update(dict.fromkeys(v))
    return ''.join(out)


def cases(graphs, deep=False):
    al = alphabet(*graphs)
    yield from texts(al, 2)
    yield from texts(LINES + 'a', 7 if deep else 6)
    mixed = LINES + SPECIAL + 'a \t'
    yield from texts(mixed, 4 if deep else 3)
    for c in al:
        for s in ('\r', '\n', '\r\n', 'b'):
            for u in ('\r', '\n', '\r\n', 'b'):
                for m in (c, c + c):
                    yield s + m + u
                    yield 'a' + s + m + u + 'a'


def compare(a, b, text, deep=False):
    """(True, n) same; (text, va, vb) they differ there; (None, why)."""
    n = 0
    seen = set()
    for s in cases((a, b), deep):
        if s in seen:
            continue
        seen.add(s)
        n += 1
        e = TextEv({text: s})
        try:
            vb = e(b)
        except Undef:
            continue
        try:
            va = e(a)
        except Undef as x:
            va = 'error: %s' % x
        except Unsupported as x:
            return None, 'no model of %s' % x
        if isinstance(va, bytearray):
            va = bytes(va)
        if va != vb:
            return s, va, vb
    return True, n
