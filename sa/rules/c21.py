"""C21: the lock of a keyring."""
from .. import terms as tm
from ..terms import const, mk
from . import dbmodel as dm
from .dbmodel import Op, key, tup

LIVE = 4242
WRITES = ('truncate', 'modify', 'write', 'remove', 'replace')


def where(c, cls, op):
    name = {'keyring': 'Keyring', 'gdbm': 'GDBM'}[cls]
    meth = {'none': '__init__', 'create': 'create_db', 'keys': 'keys',
            'get': 'get_transferrable_key', 'add': 'add_transferrable_key',
            'update': 'update_transferrable_key',
            'delete': 'delete_transferrable_key', 'lock': 'lock_db'}[op]
    for k in (name, 'BaseResource'):
        try:
            return c.where('pgp.db.gpg', c.prog.find_def(
                'pgp.db.gpg', '%s.%s' % (k, meth))) + ' (%s.%s)' % (name, meth)
        except Exception:
            continue
    return 'pgp/db/gpg.py (%s)' % name


def log(fs):
    """The events on the keyring file, or None."""
    t = fs.get('log')
    if t is None or t.op != 'listv':
        return None
    out = []
    for p in t.args:
        if p[0] != 'e':
            return None
        v = p[1]
        if v.op == 'const' and isinstance(v.args[0], tuple):
            v = [const(x) for x in v.args[0]]
        elif v.op == 'tuple':
            v = list(v.args)
        else:
            return None
        if len(v) != 2 or any(x.op != 'const' for x in v):
            return None
        out.append((tm.cval(v[0]), tm.cval(v[1])))
    return out


def since(events):
    """The events after the last 'begin'."""
    for i in range(len(events) - 1, -1, -1):
        if events[i][0] == 'begin':
            return events[i + 1:]
    return events


def number(fs, name):
    v = fs.get(name)
    if v is not None and v.op == 'const' and isinstance(tm.cval(v), int):
        return tm.cval(v)
    return None


def empty(fs, name):
    v = fs.get(name)
    if v is None:
        return None
    if v.op == 'listv':
        if not v.args:
            return True
        if any(p[0] == 'e' for p in v.args):
            return False
    return None


def conj(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    if any(x is None for x in xs):
        return None
    return True


OPS = [('none', False), ('create', False), ('get', True), ('get', False),
       ('keys', True), ('add', False), ('add', True), ('update', True),
       ('update', False), ('delete', True), ('delete', False)]
BAD = [b'\x98\x03\x04\x00', b'\x98\x09\x09abcdefgh']


def check(c):
    c.maxrec = 3
    c.rule('access', 'while the file of a keyring is open, or is being '
           'replaced or removed, the lock file is held', 0)
    c.rule('released', 'on every way out of an operation, with a failure at '
           'any step of its file access or a malformed file, neither the lock '
           'file nor the lock between threads is held', 0)
    c.rule('nested', 'operations inside a region that holds the lock do not '
           'release it; the last release does', 0)
    c.rule('foreign', 'a lock file of a live process, of another host, or of '
           'another object is not removed, and the keyring is not touched '
           'while it is there', 0)
    ring = [key(0), key(1), key(2)]
    for cls in ('keyring', 'gdbm'):
        c.guard('nested', cls, lambda cls=cls: one_class(c, cls, ring))
    locks(c)


def one_class(c, cls, ring):
    known = nested(c, cls, ring)
    for op, there in OPS:
        nm = '%s:%s:%s' % (cls, op, 'present' if there else 'absent')
        k = 0
        while k <= (40 if c.tier == 'thorough' else 12):
            nf = k or None
            o = []

            def go(nf=nf, o=o, op=op, there=there):
                kw = {}
                if op == 'create':
                    kw = dict(force=True, exists=False)
                # the way an operation starts does not matter here: let it
                # fail at any step from the start
                o.append(Op(c, cls=cls, op='none' if op == 'create' else op,
                            ring=ring, key=ring[1] if there else key(7),
                            fault=nf, reset=op not in ('none', 'create'),
                            **kw))
            c.guard('released', '%s:%d' % (nm, k), go)
            if not o:
                break
            hit = judge(c, o[0], cls, op, '%s:failing at step %d' % (nm, k)
                        if k else nm, known)
            if k and not hit:
                break
            k += 1
    for i, bad in enumerate(BAD):
        for op in ('get', 'update', 'delete', 'none'):
            o = []

            def go(bad=bad, op=op, o=o):
                r = [ring[0], [bad] + ring[1][1:], ring[2]]
                o.append(Op(c, cls=cls, op=op, ring=r, key=ring[2],
                            reset=False))
            c.guard('released', '%s:%s:malformed %d' % (cls, op, i), go)
            if o:
                judge(c, o[0], cls, op, '%s:%s:malformed %d' % (cls, op, i),
                      known)


def judge(c, o, cls, op, nm, known):
    hit = False
    w = where(c, cls, op)
    acc, rel = [], []
    msg = ''
    for how, fs in o.exits():
        n, f = number(fs, 'count'), fs.get('fault')
        if n is None or f is None or f.op != 'const' or n == tm.cval(f):
            hit = True
        ev = log(fs)
        if ev is None:
            acc.append(None)
        else:
            bad = [e for e in ev if e[0] != 'begin' and not e[1]]
            if bad:
                msg = 'without the lock: ' + ', '.join(
                    sorted(set(e[0] for e in bad)))
            acc.append(not bad)
        rel.append(conj([empty(fs, 'links')] + [
            None if number(fs, k) is None else number(fs, k) == 0
            for k in fs if k.startswith('rl')]))
    if not known:
        acc = [None]
    c.ob('access', nm, conj(acc), msg, w)
    c.ob('released', nm, conj(rel), 'the lock is still held on a way out', w)
    return hit


def nested(c, cls, ring):
    """Whether the way the lock is taken is one this model knows."""
    known = []

    def held():
        o = Op(c, fn='held', cls=cls, ring=ring, args=[const(cls)])
        for how, fs in o.exits():
            if how == 'return' and empty(fs, 'links') is False:
                known.append(1)
                n = [number(fs, k) for k in fs if k.startswith('rl')]
                if n and None not in n:
                    c.ob('nested', cls + ':threads', sum(n) > 0,
                         'the lock between threads is not held with the '
                         'lock file', where(c, cls, 'lock'))
    c.guard('nested', cls + ':held', held)
    for op in ('lock', 'get', 'keys', 'update', 'delete'):
        def go(op=op):
            o = Op(c, fn='nested', cls=cls, ring=ring, args=[
                const(cls), tup(*map(const, ring[1])), const(op)])
            v = o.run.value
            ok = None
            if known and o.run.accept is tm.TRUE:
                if v.op == 'tuple':
                    v = [tm.cval(x) if x.op == 'const' else None
                         for x in v.args]
                elif v.op == 'const':
                    v = list(tm.cval(v))
                else:
                    v = [None]
                if None not in v:
                    ok = v[0] > 0 and v[1] > 0 and v[2] == 0
            c.ob('nested', '%s:%s' % (cls, op), ok, 'lock files held after '
                 'taking it, after the operation, after releasing it: %s' % (
                     v,), where(c, cls, op))
        c.guard('nested', '%s:%s' % (cls, op), go)
    return bool(known)


def lockwhere(c, meth):
    try:
        return c.where('pgp.db.gpg', c.prog.find_def(
            'pgp.db.gpg', 'Lock.' + meth)) + ' (Lock.%s)' % meth
    except Exception:
        return 'pgp/db/gpg.py (Lock)'


def locks(c):
    ring = [key(0), key(1)]
    held = [('live process', '%010dhost\n' % LIVE),
            ('live process of another host', '%010dnode\n' % LIVE),
            ('process of another host', '0000000042node\n')]
    for what, content in held:
        for cls in ('keyring', 'gdbm'):
            for op in ('none', 'add', 'update'):
                def go(cls=cls, op=op, content=content, what=what):
                    o = Op(c, cls=cls, op=op, ring=ring, lock=content,
                           alive=(LIVE,), key=ring[1])
                    untouched(c, o, '%s:%s:%s' % (cls, op, what),
                              lockwhere(c, 'acquire'))
                c.guard('foreign', '%s:%s:%s' % (cls, op, what), go)

        def timed(content=content, what=what):
            o = Op(c, fn='acquire', ring=ring, lock=content, alive=(LIVE,),
                   args=[const(1)])
            untouched(c, o, 'acquire:' + what, lockwhere(c, 'acquire'))
            if o.run.accept is tm.TRUE:
                v = o.run.ip.truthy(o.run.value, o.run.r.state)
                c.ob('foreign', 'timeout:' + what, None if v not in (
                    tm.TRUE, tm.FALSE) else v is tm.FALSE, 'the lock is '
                    'reported as taken', lockwhere(c, 'acquire'))
            for how, fs in o.exits():
                c.ob('released', 'timeout:%s:%s' % (what, how), conj(
                    None if number(fs, k) is None else number(fs, k) == 0
                    for k in fs if k.startswith('rl')),
                    'the lock between threads is held after failing to take '
                    'the lock', lockwhere(c, 'acquire'))
        c.guard('foreign', 'timeout:' + what, timed)

        def clean(content=content, what=what):
            o = Op(c, fn='clean', ring=ring, lock=content, alive=(LIVE,),
                   args=[])
            untouched(c, o, 'at exit:' + what, lockwhere(c, 'release'))
        c.guard('foreign', 'at exit:' + what, clean)

    def other():
        o = Op(c, fn='other', ring=ring, args=[])
        v = o.run.value
        ok = None
        if o.run.accept is tm.TRUE:
            v = tm.cval(v) if v.op == 'const' else tuple(
                tm.cval(x) if x.op == 'const' else None
                for x in v.args) if v.op == 'tuple' else (None,)
            if None not in v:
                ok = v == (False, 1)
                if v[1] == 0 and not v[0]:
                    ok = False
        c.ob('foreign', 'another object', ok, 'taken by the second, lock '
             'files left: %s' % (v,), lockwhere(c, 'acquire'))
    c.guard('foreign', 'another object', other)


def untouched(c, o, nm, w):
    ok = []
    msg = ''
    for how, fs in o.exits():
        n = number(fs, 'foreign')
        ok.append(None if n is None else n == 0)
        if n:
            msg = 'the lock file is removed'
        ev = log(fs)
        if ev is None:
            ok.append(None)
        elif any(e[0] != 'begin' for e in ev):
            ok.append(False)
            msg = 'the keyring is accessed'
        else:
            ok.append(True)
    c.ob('foreign', nm, conj(ok) if ok else None, msg, w)
