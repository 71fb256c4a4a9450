"""C27: keyserver traffic."""
from urllib.parse import urlsplit

from .. import terms as tm
from ..interp import Dead
from ..terms import const, mk
from .common import Run, SPEC

FAILED = tm.sym('failed', 'bool')
RESPONSE = tm.sym('response', 'response')
VERBS = ('get', 'post', 'put', 'head', 'request', 'patch', 'delete')
QUOTING = ('urllib.parse.quote', 'urllib.parse.quote_plus',
           'urllib.parse.urlencode', 'urllib.parse.quote_from_bytes')
WAYS = ('get', 'search', 'submit')


class Traffic(object):
    """The requests that one call makes."""

    def __init__(self, c, sp, way, url):
        self.sent = []
        intr = {'pgp.shortcuts.read_key': self.opaque,
                '.raise_for_status': self.raise_for_status,
                'urllib.request.urlopen': self.urlopen}
        for v in VERBS:
            intr['requests.' + v] = self.request
            intr['.' + v] = self.method
        arg = {'get': [tm.sym('kid', 'str')], 'search': [tm.sym(
            'words', 'str')], 'submit': []}[way]
        self.r = Run(c, sp, way, [const(url)] + arg + [tm.FALSE],
                     intrinsics=intr, explicit=True)
        self.where = self.r.where

    def opaque(self, ip, name, args, kw, st, node):
        return mk('call', 'key', tuple(ip.snapshot(a, st) for a in args), ())

    def raise_for_status(self, ip, b, args, kw, st, node):
        if b != RESPONSE:
            return NotImplemented
        s2 = st.copy()
        if ip.assume(s2, FAILED):
            ip.do_raise(mk('ext', 'requests.HTTPError'), s2, node,
                        ip.frames[-1] if ip.frames else None)
        if not ip.assume(st, tm.not_(FAILED)):
            raise Dead()
        return const(None)

    def record(self, ip, verb, args, kw, st, node):
        kw = {k: ip.snapshot(v, st) for k, v in kw}
        args = [ip.snapshot(a, st) for a in args]
        if verb == 'request':
            args = args[1:] if args else args
        url = args[0] if args else kw.pop('url', None)
        if verb == 'get' and len(args) > 1:
            kw['params'] = args[1]
        if verb in ('post', 'put', 'patch') and len(args) > 1:
            kw['data'] = args[1]
        self.sent.append((verb, url, kw, tm.and_(*st.path)))
        return RESPONSE

    def request(self, ip, name, args, kw, st, node):
        return self.record(ip, name.rpartition('.')[2], args, kw, st, node)

    def method(self, ip, b, args, kw, st, node):
        if not tm.show(b, 4).startswith(('requests.Session(',
                                         'requests.session(')):
            return NotImplemented
        f = getattr(node, 'func', None)
        return self.record(ip, getattr(f, 'attr', 'get'), args, kw, st, node)

    def urlopen(self, ip, name, args, kw, st, node):
        self.record(ip, 'urlopen', args, kw, st, node)
        return mk('call', name, (), ())


def check(c):
    c.maxrec = 2
    sp = SPEC(c, 'hkps')
    c.rule('tls', 'an address asking for TLS is contacted over TLS, '
           'with certificates checked', 24)
    c.rule('host', 'the host and the port contacted are those of the address',
           40)
    c.rule('failure', 'a failure reported by the server raises an error', 12)
    c.rule('query', 'query values are encoded', 6)
    hosts = ['keys.example.org', 'keys.example.org:8443', '192.0.2.1:1',
             '[2001:db8::1]', '[2001:db8::1]:4433', 'KEYS.example.org:443',
             'me:pass@keys.example.org:99', 'h', 'h:80', 'h:11371']
    tails = ['', '/', '/sub/']
    for scheme in ('hkps', 'https', 'HKPS', 'Https', 'hkp', 'http', 'HKP'):
        for i, host in enumerate(hosts):
            for j, tail in enumerate(tails):
                if c.tier != 'thorough' and (i + j) % 3 and i:
                    continue
                address(c, sp, scheme, host, tail)
    for scheme in ('hkps', 'hkp', 'https', 'http'):
        for way in WAYS:
            failure(c, sp, scheme + '://keys.example.org', way)
            query(c, sp, scheme + '://keys.example.org', way)


def urls(t):
    """Addresses used, with the condition; None when unknown."""
    out = []
    for verb, url, kw, cond in t.sent:
        for u in alternatives(url):
            out.append((u, kw))
    return out


def alternatives(u):
    if u is None:
        return [None]
    if u.op == 'ite':
        return alternatives(u.args[1]) + alternatives(u.args[2])
    s = first_text(u)
    return [s]


def first_text(u):
    """The constant text with which an address begins."""
    if u.op == 'const' and isinstance(tm.cval(u), str):
        return tm.cval(u)
    if u.op == 'strcat' and u.args:
        s = first_text(u.args[0])
        if s and s.count('/') >= 3:
            # as far as the path, the rest cannot change the host
            return s
    return None


def address(c, sp, scheme, host, tail):
    url = scheme + '://' + host + tail
    tls = scheme.lower() in ('hkps', 'https')
    want = urlsplit('//' + host)
    default = {'hkps': 443, 'https': 443, 'hkp': 11371, 'http': 80}[
        scheme.lower()]
    for way in WAYS:
        def run(way=way):
            t = Traffic(c, sp, way, url)
            us = urls(t)
            if tls:
                rule_tls(us, way, t)
            key = '%s:%s' % (way, url)
            if not us:
                c.ob('host', key, None, 'no request recognised', t.where)
            for u, kw in us:
                if u is None:
                    c.ob('host', key, None, 'unknown address', t.where)
                    continue
                g = urlsplit(u)
                try:
                    port = g.port or {'https': 443, 'http': 80}.get(g.scheme)
                except ValueError:
                    port = None
                ok = (g.hostname == want.hostname and
                      g.username == want.username and
                      g.password == want.password and
                      port == (want.port or default))
                c.ob('host', key, ok, 'for %s the client contacts %s' % (
                    url, u), t.where)

        def rule_tls(us, way, t):
            key = '%s:%s' % (way, url)
            if not us:
                c.ob('tls', key, None, 'no request recognised', t.where)
            for u, kw in us:
                v = kw.get('verify')
                if u is None:
                    c.ob('tls', key, None, 'unknown address', t.where)
                elif not u.lower().startswith('https:'):
                    c.ob('tls', key, False, 'for %s the client contacts %s' % (
                        url, u), t.where)
                elif v is not None and v != tm.TRUE:
                    bad = v.op == 'const' and not tm.cval(v)
                    c.ob('tls', key, False if bad else None,
                         'certificates are not checked: verify=%s'
                         % tm.show(v, 3), t.where)
                else:
                    c.ob('tls', key, True, '', t.where)
        c.guard('host', '%s:%s' % (way, url), run)


def failure(c, sp, url, way):
    key = '%s:%s' % (way, url)

    def run():
        t = Traffic(c, sp, way, url)
        if not t.sent:
            c.ob('failure', key, None, 'no request recognised', t.where)
            return
        status(c, t, key)
    c.guard('failure', key, run)


def status(c, t, key):
    for code in (400, 403, 404, 429, 500, 502, 503):
        def leaf(x):
            if x == FAILED:
                return tm.TRUE
            if x.op == 'attr' and x.args[0] == RESPONSE:
                if x.args[1] == 'status_code':
                    return const(code)
                if x.args[1] == 'ok':
                    return tm.FALSE
            if x.op == 'bool' and x.args[0] == RESPONSE:
                return tm.FALSE
            return None
        a = tm.rewrite(t.r.accept, leaf)
        k = '%s:%d' % (key, code)
        if a == tm.FALSE:
            c.ob('failure', k, True, '', t.where)
        elif a == tm.TRUE or not mentions(a):
            c.ob('failure', k, False, 'returns normally although the server '
                 'answers with status %d' % code, t.where)
        else:
            c.ob('failure', k, None, 'depends on %s' % tm.show(a, 4), t.where)


def mentions(a):
    return any(x == RESPONSE or x == FAILED or x.op == 'unk'
               for x in walk(a))


def walk(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tm.T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)


def raw(u, name):
    """Does a value reach a text without being encoded?"""
    if u is None:
        return None
    todo = [u]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, tm.T):
            if x.op == 'call' and x.args[0] in QUOTING:
                continue
            if x.op == 'sym' and x.args[0] == name:
                return True
            todo.extend(x.args)
    return False


def query(c, sp, url, way):
    key = '%s:%s' % (way, url)
    name = {'get': 'kid', 'search': 'words'}.get(way)

    def run():
        t = Traffic(c, sp, way, url)
        if not t.sent:
            c.ob('query', key, None, 'no request recognised', t.where)
        for verb, u, kw, cond in t.sent:
            if name is None:
                d = kw.get('data')
                ok = d is not None and d.op in ('dictv', 'listv', 'tuple')
                enc = d is not None and d.op == 'call' and \
                    d.args[0] in QUOTING
                text = None if d is None else tm.type_of(d) in (
                    'str', 'bytes')
                c.ob('query', key, True if ok or enc else
                     False if text and not enc else None,
                     'the form is sent without being encoded', t.where)
                continue
            bad = raw(u, name)
            p = kw.get('params')
            if p is not None and p.op not in ('dictv', 'listv', 'tuple') \
                    and tm.type_of(p) in ('str', 'bytes'):
                bad = bad or raw(p, name)
            c.ob('query', key, not bad, 'the %s is put into the address '
                 'without being encoded' % (
                     'key ID' if way == 'get' else 'search text'), t.where)
            if p is not None and p.op == 'dictv':
                value(c, way, key, p, t)
    c.guard('query', key, run)


def value(c, way, key, p, t):
    for k, v in p.args[0]:
        if k == const('search'):
            want = tm.sym('words', 'str') if way == 'search' else \
                mk('strcat', const('0x'), tm.sym('kid', 'str'))
            c.same('query', key + ':value', v, want, t.where)
