"""C22: keyrings opened read-only."""
from .. import terms as tm
from ..terms import const
from . import dbmodel as dm
from .c21 import WRITES, conj, log, since, where
from .dbmodel import Op, key, tup


def check(c):
    c.maxrec = 3
    c.rule('refused', 'every operation that would change a keyring opened '
           'read-only raises an error', 0)
    c.rule('unchanged', 'and no file of a keyring is opened for writing, '
           'truncated, created, replaced or removed on the way there', 0)
    ring = [key(0), key(1), key(2)]
    for cls in ('keyring', 'gdbm'):
        for op in ('add', 'update', 'delete'):
            for nm, k in (('present', ring[1]), ('absent', key(7)),
                          ('secret', None)):
                def go(cls=cls, op=op, nm=nm, k=k):
                    r = ring
                    if k is None:
                        r = [dm.secret(0), dm.secret(1)]
                        k = r[1]
                    o = Op(c, cls=cls, op=op, ring=r, key=k, read_only=True)
                    judge(c, o, '%s:%s:%s' % (cls, op, nm),
                          where(c, cls, op))
                c.guard('refused', '%s:%s:%s' % (cls, op, nm), go)

        def create(cls=cls):
            for force in (True, False):
                o = Op(c, cls=cls, op='none', exists=False, read_only=True,
                       force=force)
                judge(c, o, '%s:create:%s' % (cls, force),
                      where(c, cls, 'create'), True)
        c.guard('refused', cls + ':create', create)

        def opened(cls=cls):
            for op in ('none', 'get', 'keys'):
                o = Op(c, cls=cls, op=op, ring=ring, key=ring[1],
                       read_only=True)
                judge(c, o, '%s:%s' % (cls, op), where(c, cls, op), True,
                      False)
        c.guard('unchanged', cls + ':reading', opened)
    for defaults in (False, True):
        for op in ('add', 'update', 'delete'):
            for kind in ('public', 'secret'):
                for exists in (True, False):
                    nm = 'collection:%s:%s:%s%s' % (
                        op, kind, 'default' if defaults else 'named',
                        '' if exists else ':missing')

                    def go(op=op, kind=kind, exists=exists, nm=nm,
                           defaults=defaults):
                        mk1 = key if kind == 'public' else dm.secret
                        r = [mk1(0), mk1(1)]
                        k = mk1(7) if op == 'add' else r[1]
                        o = Op(c, fn='database', ring=r, exists=exists,
                               args=[const(True), const(defaults), const(op),
                                     tup(*map(const, k))])
                        # without a keyring of this kind nothing happens
                        judge(c, o, nm, 'pgp/db/gpg.py (GPGDatabase)', True,
                              not exists)
                    c.guard('refused', nm, go)


def judge(c, o, nm, w, whole=False, refuse=True):
    if refuse:
        a = o.run.accept
        c.ob('refused', nm, True if a is tm.FALSE else
             False if a is tm.TRUE else None, 'it is carried out', w)
    ok, msg = [], ''
    for how, fs in o.exits():
        ev = log(fs)
        if ev is None:
            ok.append(None)
            continue
        if not whole:
            ev = since(ev)
        bad = sorted(set(e[0] for e in ev if e[0] in WRITES))
        if bad:
            msg = ', '.join(bad)
        ok.append(not bad)
    c.ob('unchanged', nm, conj(ok) if ok else None, msg, w)
