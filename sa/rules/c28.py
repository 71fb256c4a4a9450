"""C28: asking for a passphrase."""
import re
from urllib.parse import unquote_to_bytes

from .. import terms as tm
from ..interp import Dead
from ..terms import const, mk
from .c27 import QUOTING, raw, walk
from .common import Run, SPEC

OK = b'OK Pleased to meet you\n'
NAMES = ('cache_id', 'error_message', 'prompt', 'description')
SOCK = 'spec.agents:Sock'


class Agent(object):
    """A call that talks to an agent following a script."""

    def __init__(self, c, sp, fn, args, greeting=OK, reply=b'D pass\nOK\n',
                 fault=None):
        self.made = 0
        script = [const(greeting), const(reply), const(fault)]

        def sock(ip, name, a, kw, st, node):
            self.made += 1
            return ip.instantiate(mk('class', SOCK), script, [], st, node)

        def closing(ip, name, a, kw, st, node):
            return ip.instantiate(mk('class', 'spec.agents:Closing'),
                                  list(a), [], st, node)
        self.r = Run(c, sp, fn, args, intrinsics={
            'socket.socket': sock, 'contextlib.closing': closing},
            explicit=True)
        self.where = self.r.where

    def exits(self):
        """(how, sockets) for each way out."""
        r = self.r
        if r.r.state is not None and r.value.op != 'noreturn':
            yield 'return', self.socks(r.r.state.heap, r.r.state)
        for x in r.raises:
            yield exc(x.value), self.socks(x.heap, None)

    def socks(self, heap, st):
        out = []
        for o in heap.values():
            if o.kind == 'inst' and o.cls == SOCK:
                out.append({k: self.r.ip.snapshot(v, st)
                            if st is not None else v
                            for k, v in o.attrs.items()})
        return out


def exc(v):
    return v.op


def check(c):
    c.maxrec = 3
    sp = SPEC(c, 'agents')
    c.rule('confirm', 'a passphrase is returned only when every confirmation '
           'equals it', 60)
    c.rule('cache', 'passphrases are kept and given out only as asked', 14)
    c.rule('escape', 'text sent to the agent is escaped', 40)
    c.rule('request', 'the agent is asked to confirm, not to ask and not to '
           'cache when the caller says so', 10)
    c.rule('error', 'an error of the agent is raised', 12)
    c.rule('closed', 'the connection is closed on every way out', 60)
    confirm(c, sp)
    cache(c, sp)
    escape(c, sp)
    request(c, sp)
    error(c, sp)
    closed(c, sp)


def asking(c, sp, fn, args, script):
    """Run with a model of getpass() that gives the entries in turn."""
    it = iter(script)
    left = list(script)

    def entry(ip, name, a, kw, st, node):
        for x in it:
            left.pop(0)
            return const(x)
        ip.do_raise(mk('ext', 'EOFError'), st.copy(), node,
                    ip.frames[-1] if ip.frames else None)
        raise Dead()
    r = Run(c, sp, fn, args, intrinsics={'getpass.getpass': entry})
    return r, len(script) - len(left)


OTHERS = ('Secret', 'secret ', ' secret', 'secre', 'secrets', '', 'other',
          'sec\u0301ret', 'secret\n', 'secret\0')


def confirm(c, sp):
    for repeat in range(0, 5 if c.tier == 'thorough' else 4):
        for other in OTHERS:
            for at in range(repeat + 1):
                if not repeat and other != 'other':
                    continue
                first = ['secret'] * (repeat + 1)
                first[at] = other
                rounds(c, sp, repeat, [first, ['x1'] * (repeat + 1)])
        rounds(c, sp, repeat, [['secret'] * (repeat + 1)])
        if repeat:
            a = ['secret'] + ['other'] * repeat
            rounds(c, sp, repeat, [a, a, a, ['y'] * (repeat + 1)])
            # an entry of one round does not confirm that of another
            rounds(c, sp, repeat, [['a'] * repeat + ['b'],
                                   ['b'] * repeat + ['a'],
                                   ['a'] * repeat + ['b']])


def rounds(c, sp, repeat, entries):
    key = '%d:%s' % (repeat, '/'.join(','.join(map(ascii, x))
                                      for x in entries))

    def run():
        script = [x for e in entries for x in e]
        r, n = asking(c, sp, 'prompt', [const(repeat)], script)
        v = r.value
        if v.op == 'noreturn':
            good = any(len(set(e)) == 1 for e in entries)
            # asking too often is no failure
            c.ob('confirm', key, None if good else True,
                 'does not return', r.where)
        elif v.op != 'const' or r.accept != tm.TRUE:
            c.ob('confirm', key, None, 'returns %s if %s' % (
                tm.show(v, 4), tm.show(r.accept, 4)), r.where)
        else:
            last = script[max(0, n - repeat - 1):n]
            ok = len(last) == repeat + 1 and set(last) == {tm.cval(v)}
            c.ob('confirm', key, ok, 'with the entries %r, of which each '
                 'is to be confirmed %d times, %r is returned' % (
                     script[:n], repeat, tm.cval(v)), r.where)
    c.guard('confirm', key, run)


def cache(c, sp):
    p, q = 'p', 'q'
    #  first, second, clear, use1, use2, no_ask, same -> entries read
    cases = [
        (('i', 'j', None, True, True, False, True), (p, q)),
        (('i', 'i', 'i', True, True, False, True), (p, q)),
        (('i', 'j', 'i', True, True, False, True), (p, q)),
        (('i', 'i', None, False, True, False, True), (p, q)),
        (('i', 'i', None, True, False, False, True), (p, q)),
        (('i', 'i', None, True, True, False, False), (p, q)),
        ((None, None, None, True, True, False, True), (p, q)),
        (('X', 'X', None, True, True, False, True), (p, q)),
        (('i', None, None, True, True, False, True), (p, q)),
        (('ij', 'i', None, True, True, False, True), (p, q)),
        (('i', 'I', None, True, True, False, True), (p, q)),
        (('i', 'j', None, True, True, True, True), None),
        (('i', 'i', 'i', True, True, True, True), None),
        (('i', 'i', None, False, True, True, True), None),
        (('i', None, None, True, True, True, True), None),
        (('i', 'i', None, True, False, True, True), None),
        (('i', 'i', None, True, True, True, True), (p, p)),
        (('i', 'i', 'j', True, True, True, True), (p, p)),
        (('i', 'i', None, True, True, False, True), (p, p)),
    ]
    for args, want in cases:
        one(c, sp, args, want)


def one(c, sp, args, want):
    names = ('first', 'second', 'clear', 'use1', 'use2', 'no_ask', 'same')
    key = ' '.join('%s=%s' % x for x in zip(names, args))

    def run():
        r, n = asking(c, sp, 'again', [const(x) for x in args],
                      ['p', 'q', 'r'])
        v = r.value
        if want is None:
            asked = n > 1
            done = r.accept == tm.TRUE
            c.ob('cache', key, False if asked or done else
                 True if r.accept == tm.FALSE else None,
                 'the user is asked' if asked else 'a passphrase is returned '
                 'although none is to be asked for', r.where)
            return
        if v.op == 'noreturn':
            # the limits are kept
            c.ob('cache', key, None, 'does not return', r.where)
        elif want == ('p', 'p'):
            ok = v in (mk('tuple', const('p'), const('p')),
                       mk('tuple', const('p'), const('q')))
            c.ob('cache', key, ok, 'returns %s' % tm.show(v, 4), r.where)
        else:
            c.same('cache', key, v, mk('tuple', *map(const, want)), r.where)
    c.guard('cache', key, run)


TEXTS = ('a b', ' a', 'a ', 'a\nCLEAR_PASSPHRASE x', 'a\rb', '\n', '%0A', '%',
         '+', 'a+b', '\u00e9', '\u20ac x', '--data', '--', '-', 'a\tb', 'a\0b',
         '\x7f', '"', '#', 'x' * 300)


def escape(c, sp):
    texts = TEXTS if c.tier == 'thorough' else TEXTS
    for i, name in enumerate(NAMES):
        for text in texts:
            args = [const('t%d' % j) for j in range(4)]
            args[i] = const(text)
            line(c, sp, 'ask', '%s=%a' % (name, text[:20]), args,
                 ['t%d' % j if j != i else text for j in range(4)])
        args = [const(None)] * 4
        args[i] = tm.sym('text', 'str')
        symbolic(c, sp, 'ask', name, args)
    for text in texts:
        line(c, sp, 'forget', 'clear:%a' % text[:20], [const(text)], [text])
    symbolic(c, sp, 'forget', 'clear', [tm.sym('text', 'str')])


def tail(fn):
    return [tm.TRUE, tm.FALSE, const(0)] if fn == 'ask' else []


def sent(a):
    for how, socks in a.exits():
        if how == 'return':
            for s in socks:
                yield s['sent']


def tokens(fn, data):
    """The arguments in a request, as the agent splits it."""
    if data.count(b'\n') != 1 or data[-1:] != b'\n':
        return None
    words = data[:-1].split(b' ')
    if words[0] != {'ask': b'GET_PASSPHRASE', 'forget':
                    b'CLEAR_PASSPHRASE'}[fn]:
        return None
    words = words[1:]
    opts = []
    while words and words[0][:2] == b'--':
        opts.append(words.pop(0))
    return opts, words


def plain(w):
    return unquote_to_bytes(w.replace(b'+', b' '))


def line(c, sp, fn, key, args, want):
    def run():
        a = Agent(c, sp, fn, args + tail(fn))
        for t in sent(a):
            if t.op != 'const':
                c.ob('escape', key, None, 'sends %s' % tm.show(t, 5), a.where)
                continue
            p = tokens(fn, tm.cval(t))
            ok = p is not None and len(p[1]) == len(want)
            if ok:
                for w, x in zip(p[1], want):
                    for enc in ('utf-8', 'latin-1'):
                        try:
                            if plain(w) == x.encode(enc):
                                break
                        except UnicodeEncodeError:
                            pass
                    else:
                        ok = False
            c.ob('escape', key, ok, 'sends %a, which the agent does not '
                 'take for the texts %a' % (tm.cval(t)[:80], want), a.where)
    c.guard('escape', key, run)


def symbolic(c, sp, fn, key, args):
    def run():
        a = Agent(c, sp, fn, args + tail(fn))
        n = 0
        for t in sent(a):
            n += 1
            seen = any(x == tm.sym('text', 'str') for x in walk(t))
            c.ob('escape', key, False if raw_text(t) else
                 True if seen else None,
                 'the text is sent without being escaped', a.where)
        if not n:
            c.ob('escape', key, None, 'nothing sent', a.where)
    c.guard('escape', key + ':symbolic', run)


def raw_text(t):
    """Does the text itself, not a condition on it, reach the request?"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, tm.T):
            if x.op == 'call':
                if x.args[0] in QUOTING:
                    continue
                return False
            if x.op == 'sym':
                return True
            if x.op == 'ite':
                todo.extend(x.args[1:])
            elif x.op in ('strcat', 'bseq', 'enc', 'fmt', 'slice', 'str',
                          'c'):
                todo.extend(x.args)
    return False


def request(c, sp):
    t4 = [const('t%d' % j) for j in range(4)]
    for repeat in (0, 1, 2, 3, 10):
        def run(repeat=repeat):
            a = Agent(c, sp, 'ask', t4 + [tm.TRUE, tm.FALSE, const(repeat)])
            for t in sent(a):
                p = opts(t)
                if p is None:
                    c.ob('request', 'repeat=%d' % repeat, None,
                         'sends %s' % tm.show(t, 5), a.where)
                    continue
                n = 0
                for o in p[0]:
                    m = re.fullmatch(rb'--repeat(=(\d+))?', o)
                    if m:
                        n = int(m.group(2) or 1)
                c.ob('request', 'repeat=%d' % repeat, n == repeat,
                     'sends %a' % tm.cval(t), a.where)
        c.guard('request', 'repeat=%d' % repeat, run)
    for no_ask in (False, True):
        def run(no_ask=no_ask):
            a = Agent(c, sp, 'ask', t4 + [tm.TRUE, const(no_ask), const(0)])
            for t in sent(a):
                p = opts(t)
                c.ob('request', 'no_ask=%s' % no_ask, None if p is None else
                     (b'--no-ask' in p[0]) == no_ask,
                     'sends %s' % tm.show(t, 5), a.where)
        c.guard('request', 'no_ask=%s' % no_ask, run)
    for use, cid in ((True, 'cid'), (False, 'cid'), (True, None),
                     (False, None), (True, ''), (False, 'X')):
        def run(use=use, cid=cid):
            a = Agent(c, sp, 'ask', [const(cid)] + t4[1:] + [
                const(use), tm.FALSE, const(0)])
            for t in sent(a):
                p = opts(t)
                want = b'cid' if use and cid else b'X'
                c.ob('request', 'use_cache=%s cache_id=%s' % (use, cid),
                     None if p is None else p[1][:1] == [want],
                     'sends %s' % tm.show(t, 5), a.where)
        c.guard('request', 'use_cache=%s cache_id=%s' % (use, cid), run)


def opts(t):
    return tokens('ask', tm.cval(t)) if t.op == 'const' else None


def error(c, sp):
    t4 = [const('t%d' % j) for j in range(4)]
    scripts = [
        (OK, b'ERR 83886179 Operation cancelled <Pinentry>\n'),
        (OK, b'ERR 67109139\n'), (OK, b'ERR\n'),
        (OK, b'D pass\nERR 1 late\n'), (OK, b'# note\nERR 1 x\n'),
        (OK, b'S PROGRESS\nERR 1 x\n'),
        (OK, b'ERR 1 x\nOK\n'), (OK, b'ERR 1 OK\nD pass\nOK\n'),
        (b'ERR 1 busy\n', b'D pass\nOK\n'), (b'ERR 1 busy\n', b'OK\n'),
        (b'# hi\nERR 1 busy\n', b'D pass\nOK\n'),
        (OK, b''), (OK, b'D pass\n'), (b'', b''), (OK, b'D pa')]
    for greeting, reply in scripts:
        key = '%a:%a' % (greeting, reply)

        def run():
            a = Agent(c, sp, 'ask', t4 + tail('ask'), greeting, reply)
            acc = a.r.accept
            c.ob('error', key, True if acc == tm.FALSE else
                 False if acc == tm.TRUE and a.made else None,
                 'returns %s although the agent answers %a' % (
                     tm.show(a.r.value, 4), greeting + reply), a.where)
        c.guard('error', key, run)
    for reply, want in ((b'D pass\nOK\n', 'pass'), (b'D a%25b\nOK\n', 'a%b'),
                        (b'D a%0Ab\nOK ready\n', 'a\nb')):
        def good(reply=reply, want=want):
            a = Agent(c, sp, 'ask', t4 + tail('ask'), OK, reply)
            if a.r.value.op == 'noreturn':
                c.ob('error', 'reply:%a' % reply, None, 'no value', a.where)
                return
            c.same('error', 'reply:%a' % reply, a.r.value, const(want),
                   a.where)
        c.guard('error', 'reply:%a' % reply, good)


def closed(c, sp):
    t4 = [const('t%d' % j) for j in range(4)]
    runs = []
    for fn in ('ask', 'forget'):
        args = t4 + tail('ask') if fn == 'ask' else t4[:1]
        for fault in [None, 'connect', 'send'] + list(range(1, 32)):
            runs.append((fn, args, OK, b'D pass\nOK\n', fault))
        runs.append((fn, args, b'ERR 1 busy\n', b'', None))
        runs.append((fn, args, b'', b'', None))
    for reply in (b'ERR 1 x\n', b'D pass\nERR 1 x\n', b'', b'D pa',
                  b'OK\n', b'ERR\n'):
        runs.append(('ask', t4 + tail('ask'), OK, reply, None))
    for fn, args, greeting, reply, fault in runs:
        key = '%s:%s' % (fn, fault if fault is not None else
                         '%a' % (greeting + reply))

        def run():
            a = Agent(c, sp, fn, args, greeting, reply, fault)
            for how, socks in a.exits():
                for s in socks:
                    v = s['closed']
                    plain = how not in ('caughtexc', 'implicit_exc', 'reraise')
                    ok = True if v == tm.TRUE else \
                        False if v == tm.FALSE and plain else None
                    c.ob('closed', key + ':' + how, ok,
                         'leaves the connection open' + (
                             ' when %s fails' % (
                                 fault if isinstance(fault, str) else
                                 'reading octet %d' % fault)
                             if fault is not None else ''), a.where)
            if not a.made:
                c.ob('closed', key, None, 'no connection recognised', a.where)
        c.guard('closed', key, run)
