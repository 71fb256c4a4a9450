"""C34: merging two copies of a key."""
from .. import terms as tm
from ..terms import const
from . import dbmodel as dm
from .c23 import ALIKE
from .common import Run, SPEC
from .dbmodel import packet, tup

TRUST = (12, b'\x06\0')


def sig(n, kind=0x13, text=b'', issuer=None):
    """A version 4 signature that differs in n."""
    hashed = b'\x05\x02' + (n + 100).to_bytes(4, 'big') + text
    unhashed = b'' if issuer is None else b'\x09\x10' + issuer
    return (2, bytes([4, kind, 1, 2]) + len(hashed).to_bytes(2, 'big') +
            hashed + len(unhashed).to_bytes(2, 'big') + unhashed +
            b'\x12\x34' + b'\0\x09\1' + bytes([n]))


def uid(s):
    return (13, s)


def attr(n):
    # an image attribute
    body = b'\x10\0\x01\x01' + bytes(12) + bytes([n, 2, 3])
    return (17, bytes([len(body) + 1, 1]) + body)


def tree(packs):
    """{component: signatures of it} of the packets of one key."""
    out = {}
    cur = None
    first = None
    for p in packs:
        t, b = dm.tag(p), bytes(dm.body(p))
        if t == 2:
            out[cur].append(b)
        elif t != 12:
            cur = (t, b)
            if cur not in out:
                out[cur] = []
    return out


def build(style, parts, secret=False, created=1):
    prim = (dm.secret if secret else dm.key)(0)[0]
    if created != 1:
        prim = dm.key(0, created=created)[0]
    out = [packet(dm.tag(prim), dm.body(prim), style)]
    for p in parts:
        out.append(packet(p[0], p[1], style))
    return out


A, B, C = uid(b'Alice <a@example.org>'), uid(b'Bob'), uid(b'Alice <A@example.org>')
S = [sig(i) for i in range(8)]
D = [sig(i + 20, 0x1f) for i in range(3)]
R = sig(30, 0x20)
K = [sig(i + 40, 0x18) for i in range(4)]
KR = sig(50, 0x28)
X, Y = dm.subkey(1), dm.subkey(2)
SAME = sig(2, 0x10)
# signatures alike in everything but their issuers, or their values
ISS = [sig(60, issuer=b'12345678'), sig(60, issuer=b'abcdefgh')]
LIKE = [(2, sig(61)[1][:-1] + b'\1'), (2, sig(61)[1][:-1] + b'\2')]

PAIRS = {
    'equal': ([A, S[0], X, K[0]], [A, S[0], X, K[0]]),
    'new user ID': ([A, S[0]], [A, S[0], B, S[1]]),
    'old user ID': ([A, S[0], B, S[1]], [A, S[0]]),
    'disjoint user IDs': ([A, S[0]], [B, S[1], S[2]]),
    'case of user IDs': ([A, S[0]], [C, S[0]]),
    'new certifications': ([A, S[0]], [A, S[0], S[1], S[2]]),
    'old certifications': ([A, S[0], S[1], S[2]], [A, S[2]]),
    'disjoint certifications': ([A, S[0], S[1]], [A, S[2], S[3]]),
    'no certifications': ([A], [A, S[0]]),
    'to none': ([], [A, S[0], X, K[0]]),
    'from none': ([A, S[0], X, K[0]], []),
    'order of user IDs': ([A, S[0], B, S[1]], [B, S[2], A, S[3]]),
    'same signature on two': ([A, S[0]], [B, S[0]]),
    'direct signatures': ([D[0], A, S[0]], [D[1], R, A, S[0]]),
    'revocation': ([A, S[0]], [R, A, S[0], sig(9, 0x30)]),
    'certifications of one time': ([A, S[0], ISS[0]], [A, ISS[1]]),
    'signatures with other values': ([A, LIKE[0]], [A, LIKE[1]]),
    'signatures of other types': ([A, S[2]], [A, SAME]),
    'new subkey': ([A, S[0], X, K[0]], [A, S[0], Y, K[1]]),
    'subkey revocation': ([A, S[0], X, K[0]], [A, S[0], X, K[0], KR]),
    'subkey rebound': ([A, S[0], X, K[0], Y, K[1]],
                       [A, S[0], Y, K[2], X, K[3]]),
    'attributes': ([A, S[0], attr(1), S[1]],
                   [A, S[0], attr(1), S[2], attr(9), S[3]]),
    'attribute only in one': ([A, S[0]], [A, S[0], attr(1), S[1]]),
    'everything': ([D[0], A, S[0], S[1], attr(1), S[2], X, K[0]],
                   [D[1], R, B, S[3], A, S[4], S[1], attr(2), S[5], Y, K[1],
                    X, K[2]]),
    'self-signatures': ([A, sig(70, issuer=b'\0' * 8), S[0]], [A, sig(
        71, issuer=b'\0' * 8), S[0]]),
}


def run(c, fn, a, b, extra):
    return Run(c, SPEC(c, 'merging'), fn, [
        tup(*map(const, a)), tup(*map(const, b)), extra], ip=machine(c))


def machine(c):
    ip = c.interp()
    ip.explicit_only = True
    ip.fold_digests = True
    return ip


def value(r):
    if r.accept is not tm.TRUE:
        return None
    v = r.value
    if v.op == 'const' and isinstance(tm.cval(v), tuple):
        return list(tm.cval(v))
    if v.op == 'tuple' and all(x.op == 'const' for x in v.args):
        return [tm.cval(x) for x in v.args]
    return None


def check(c):
    c.maxrec = 3
    c.rule('union', 'the components of the result are those of both copies, '
           'each with the signatures it has in either', 0)
    c.rule('once', 'merging the same copy again changes nothing', 0)
    c.rule('candidate', 'the other copy is left as it was', 0)
    c.rule('linked', 'components and signatures of the result belong to it, '
           'those of the other copy still to that', 0)
    c.rule('distinct', 'a key with another fingerprint is left out', 0)
    c.rule('database', 'the same for a copy found in a database, also behind '
           'another key with the same key ID', 0)
    w = where(c)
    for nm, (x, y) in sorted(PAIRS.items()):
        for kind in ('public', 'secret', 'framing', 'swapped'):
            if kind == 'secret' and any(p[0] == 14 for p in x + y):
                continue
            if kind != 'public' and c.tier != 'thorough' and nm not in (
                    'everything', 'order of user IDs', 'attributes',
                    'disjoint certifications'):
                continue
            one(c, nm, x, y, kind, w)
    others(c, w)


def where(c):
    try:
        return c.where('pgp.merge', c.prog.find_def('pgp.merge', 'merge')) + \
            ' (merge)'
    except Exception:
        return 'pgp/merge.py'


def union(a, b):
    want = {k: set(v) for k, v in tree(a).items()}
    for k, v in tree(b).items():
        want.setdefault(k, set()).update(v)
    return want


def one(c, nm, x, y, kind, w):
    if kind == 'swapped':
        x, y = y, x
    sec = kind == 'secret'
    a = build('old', x, sec)
    b = build('new' if kind == 'framing' else 'old', y, sec)
    key = '%s:%s' % (nm, kind)

    def go():
        got = value(run(c, 'merged', a, b, const(1)))
        msg = ''
        ok = None
        if got is not None:
            have = tree(got)
            want = union(a, b)
            ok = {k: set(v) for k, v in have.items()} == want
            lost = [k for k in want if k not in have or
                    want[k] - set(have[k])]
            more = [k for k in have if k not in want or
                    set(have[k]) - want[k]]
            msg = '%d components incomplete, %d with foreign content' % (
                len(lost), len(more))
        c.ob('union', key, ok, msg, w)
    c.guard('union', key, go)

    def go():
        got = value(run(c, 'merged', a, b, const(2)))
        once = value(run(c, 'merged', a, b, const(1)))
        c.ob('once', key, None if got is None or once is None
             else got == once,
             'merging twice differs from merging once', w)
    c.guard('once', key, go)
    if kind != 'public':
        return

    def go():
        got = value(run(c, 'both', a, b, const(1)))
        c.ob('candidate', key, None if got is None else tree(
            got) == tree(b), 'the other copy is changed', w)
    c.guard('candidate', key, go)

    def go():
        r = run(c, 'linked', a, b, const(1))
        v = r.ip.truthy(r.value, r.r.state) if r.accept is tm.TRUE else None
        c.ob('linked', key, None if v not in (tm.TRUE, tm.FALSE)
             else v is tm.TRUE, 'a part of one copy refers to the other', w)
    c.guard('linked', key, go)


def others(c, w):
    x = [A, S[0], X, K[0]]
    y = [A, S[1], B, S[2]]
    for nm, ca, cb in (('another key', 1, 2),
                       ('another key with the same short ID',
                        ALIKE[0], ALIKE[1])):
        a, b = build('old', x, created=ca), build('old', y, created=cb)

        def go(a=a, b=b, nm=nm):
            got = value(run(c, 'merged', a, b, const(1)))
            c.ob('distinct', nm, None if got is None else
                 tree(got) == tree(a), 'another key is merged', w)
        c.guard('distinct', nm, go)
        if nm == 'another key':
            continue

        def go(a=a, b=b):
            m = build('old', y, created=ALIKE[0])
            for k, other in (('alone', ()), ('behind another', b)):
                got = value(run(c, 'stored', a, m, tup(*map(const, other))))
                c.ob('database', k, None if got is None else {
                    i: set(v) for i, v in tree(got).items()} == union(a, m),
                    'components are lost or added', w)
        c.guard('database', nm, go)
