"""C23: changing one key of a keyring."""
from .. import terms as tm
from ..terms import const
from . import dbmodel as dm
from .c21 import conj, where
from .dbmodel import Op, key, secret, subkey, tup

STYLES = ('old', 'old2', 'old4', 'new', 'new5')
EXTRA = [(2, dm.SIG), (13, b'second'), (2, dm.SIG), (2, dm.SIG), subkey(3),
         (2, dm.SUBSIG), subkey(4), (2, dm.SUBSIG)]
# Packets an implementation may skip when it reads a key
MORE = [(2, dm.SIG), (12, b'\x06\0'), (17, b'\2\x61'), (2, dm.SIG),
        subkey(3), (2, dm.SUBSIG), (12, b'\x06\0')]
# Two dates of creation for which the fingerprints of key() end alike
ALIKE = (105440, 122170)


def check(c):
    c.maxrec = 3
    c.rule('others', 'after a key is added, updated or deleted the packets '
           'of every other key are in the file, unchanged and in order', 0)
    c.rule('own', 'a deleted key is gone; one added or updated is there '
           'once, with its new packets', 0)
    c.rule('refused', 'adding a key that is there, and changing one that is '
           'not, leave the file as it is', 0)
    c.rule('found', 'afterwards the other keys are found by their '
           'fingerprints', 0)
    c.rule('history', 'the same for several changes, made through several '
           'objects for one file', 0)
    for cls in ('keyring', 'gdbm'):
        for nm, ring in rings(c):
            for i in range(len(ring)):
                if nm == 'foreign packets' and i != 1:
                    continue
                for op in ('update', 'delete'):
                    one(c, cls, op, nm, ring, i)
            one(c, cls, 'add', nm, ring, None)
            for i in range(len(ring)):
                if nm == 'foreign packets' and i != 1:
                    continue
                refused(c, cls, 'add', nm, ring, ring[i], i)
            for op in ('update', 'delete'):
                refused(c, cls, op, nm, ring, key(60), None)
        histories(c, cls)


def rings(c):
    for style in STYLES:
        if style in ('old2', 'new5') and c.tier != 'thorough':
            continue
        yield style, [key(0, style=style), key(1, style=style, extra=EXTRA),
                      key(2, style=style)]
    yield 'mixed', [key(0, style='new', extra=EXTRA), key(1, extra=EXTRA),
                    key(2, style='old2', extra=EXTRA[:2])]
    yield 'skipped', [key(0, extra=MORE), key(1), key(2, extra=MORE)]
    yield 'foreign packets', [key(0, extra=MORE + [(60, b'mine')]), key(1),
                              key(2, extra=[(60, b'mine')] + MORE)]
    yield 'same short ID', [key(0, created=ALIKE[0]), key(5),
                            key(1, created=ALIKE[1])]
    yield 'secret', [secret(0), secret(1, extra=[(2, dm.SIG)]), secret(2)]
    yield 'one', [key(0, extra=EXTRA)]
    if c.tier == 'thorough':
        yield 'five', [key(i, extra=EXTRA[:i]) for i in range(5)]


def changed(ring, i):
    """Key i with another user ID."""
    k = ring[i]
    return [k[0], dm.packet(13, b'changed!', dm.style(k[0]))] + k[2:]


def final(o, cls):
    """The content of the file at the end: octets, or {fingerprint: octets};
    None if it is not known."""
    out = []
    for how, fs in o.exits():
        v = fs.get('files')
        got = None
        if v is not None and v.op == 'dictv':
            for a in v.args:
                for k, x in (a if isinstance(a, tuple) else ()):
                    if k == const(dm.RING) or k == dm.RING:
                        got = x
        if got is None:
            out.append((how, None))
        elif cls == 'gdbm':
            d = None
            if got.op == 'dictv' and got.args and \
                    isinstance(got.args[0], tuple) and \
                    all(k.op == 'const' and x.op == 'const'
                        for k, x in got.args[0]) and (
                            len(got.args) < 2 or got.args[1] in (None, tm.NONE)):
                d = {tm.cval(k): tm.cval(x) for k, x in got.args[0]}
            out.append((how, d))
        else:
            out.append((how, tm.cval(got) if got.op == 'const' else None))
    return out


def split(data, chunks, cls):
    """What is in the file besides the packets of the given keys, or None if
    they are not all there in order."""
    if cls == 'gdbm':
        rest = dict(data)
        for k in chunks:
            if rest.pop(dm.fingerprint(k[0]).encode(), None) != b''.join(k):
                return None
        if not rest:
            return b''
        return next(iter(rest.values())) if len(rest) == 1 else \
            b''.join(rest.values())
    cs = [b''.join(k) for k in chunks]
    for j in range(len(cs) + 1):
        a, b = b''.join(cs[:j]), b''.join(cs[j:])
        if len(data) >= len(a) + len(b) and data.startswith(a) and \
                data.endswith(b):
            return data[len(a):len(data) - len(b)]
    return None


def one(c, cls, op, nm, ring, i):
    others = [k for j, k in enumerate(ring) if j != i]
    k = key(50) if op == 'add' else changed(ring, i) if op == 'update' \
        else ring[i]
    if op == 'add' and nm == 'secret':
        k = secret(50)
    name = '%s:%s:%s:%s' % (cls, op, nm, i)
    w = where(c, cls, op)

    def go():
        o = Op(c, cls=cls, op=op, ring=ring, key=k)
        oth, own = [], []
        msg = ''
        for how, data in final(o, cls):
            if data is None:
                oth.append(None)
                own.append(None)
                continue
            x = split(data, others, cls)
            oth.append(x is not None)
            if x is None:
                own.append(None)
                continue
            if how == 'raise':
                own.append(None)
                continue
            if op == 'delete':
                own.append(x == b'')
            else:
                p = dm.packets(x)
                fp = dm.fingerprint(k[0])
                if p is None:
                    own.append(False)
                    msg = 'what is written does not consist of packets'
                    continue
                prim = [y for y in p if dm.tag(y) in (5, 6)]
                own.append(len(prim) == 1 and prim[0] is p[0] and
                           dm.fingerprint(p[0]) == fp and
                           sorted(dm.body(y) for y in p
                                  if dm.tag(y) == 13) ==
                           sorted(dm.body(y) for y in k
                                  if dm.tag(y) == 13))
        c.ob('others', name, conj(oth) if oth else None,
             'packets of another key are changed, moved or lost', w)
        c.ob('own', name, conj(own) if own else None, msg, w)
    c.guard('others', name, go)

    def go():
        fn = 'after'
        o = Op(c, fn='after', cls=cls, ring=ring, args=[
            const(cls), const(op), tup(*map(const, k)),
            tup(*[tup(*map(const, x[:2])) for x in others])])
        v = o.run.value
        ok = None
        if o.run.accept is tm.TRUE:
            got = list(tm.cval(v)) if v.op == 'const' else [
                tm.cval(x) if x.op == 'const' else None
                for x in v.args] if v.op == 'tuple' else [None]
            if None not in got:
                ok = got == [dm.body(x[1]).decode() for x in others]
        elif o.run.accept is tm.FALSE and others and all(
                x.value.op == 'const' or 'KeyError' in tm.show(x.value, 3)
                for x in o.run.raises):
            ok = False
        c.ob('found', name, ok, 'another key is no longer found, or '
             'confused with one', w)
    if others and nm != 'foreign packets':
        c.guard('found', name, go)


def refused(c, cls, op, nm, ring, k, i):
    name = '%s:%s:%s:%s' % (cls, op, nm, i)
    w = where(c, cls, op)

    def go():
        kk = k if i is None else changed(ring, i)
        o = Op(c, cls=cls, op=op, ring=ring, key=kk)
        ok = []
        for how, data in final(o, cls):
            ok.append(None if data is None else split(
                data, ring, cls) == b'')
        c.ob('refused', name, conj(ok) if ok else None,
             'the file is changed', w)
    c.guard('refused', name, go)


def histories(c, cls):
    ring = [key(0, extra=EXTRA), key(1), key(2, extra=EXTRA[:3]), key(3)]
    steps = {
        'delete, then delete': [(0, 'delete', 0), (1, 'delete', 2)],
        'delete, then update': [(0, 'delete', 1), (1, 'update', 3)],
        'update, then delete': [(0, 'update', 0), (1, 'delete', 2)],
        'update, then update': [(0, 'update', 1), (1, 'update', 0)],
        'delete twice': [(0, 'delete', 1), (1, 'delete', 1)],
        'delete, then update the deleted': [(0, 'delete', 1),
                                            (1, 'update', 1)],
        'delete, then add it': [(0, 'delete', 1), (0, 'add', 1)],
        'add twice': [(0, 'add', 9), (1, 'add', 9)],
        'update twice': [(0, 'update', 1), (0, 'update', 1),
                         (0, 'delete', 0)],
        'one object': [(0, 'delete', 0), (0, 'update', 2), (0, 'add', 9),
                       (0, 'delete', 3)],
    }
    for nm, st in sorted(steps.items()):
        def go(nm=nm, st=st):
            args = []
            here = set(range(4))
            touched = set()
            for who, op, i in st:
                k = key(9) if i == 9 else changed(ring, i) \
                    if op == 'update' else ring[i]
                args.append(tup(const(who), const(op), tup(*map(const, k))))
                touched.add(i)
                if op == 'delete':
                    here.discard(i)
                elif op == 'add':
                    here.add(i)
            o = Op(c, fn='history', cls=cls, ring=ring, args=[
                const(cls), tup(*args)])
            ok = []
            for how, data in final(o, cls):
                if data is None:
                    ok.append(None)
                    continue
                ok.append(judge(data, ring, here, touched, cls))
            c.ob('history', '%s:%s' % (cls, nm), conj(ok) if ok else None,
                 'packets of a key not concerned are changed or lost',
                 where(c, cls, 'update'))
        c.guard('history', '%s:%s' % (cls, nm), go)


def judge(data, ring, here, touched, cls):
    keep = [i for i in range(len(ring)) if i not in touched]
    if cls == 'gdbm':
        for i in keep:
            if data.get(dm.fingerprint(ring[i][0]).encode()) != \
                    b''.join(ring[i]):
                return False
        return len(data) == len(here)
    ks = []
    p = dm.packets(data)
    if p is None:
        return False
    for x in p:
        if dm.tag(x) in (5, 6):
            ks.append([])
        if not ks:
            return False
        ks[-1].append(x)
    prints = [dm.fingerprint(k[0]) for k in ks]
    want = [dm.fingerprint((key(9) if i == 9 else ring[i])[0]) for i in here]
    if sorted(prints) != sorted(want):
        return False
    rest = [k for k, f in zip(ks, prints)
            if f in [dm.fingerprint(ring[i][0]) for i in keep]]
    return rest == [ring[i] for i in keep]
