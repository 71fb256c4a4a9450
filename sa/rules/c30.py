"""C30: arguments are left as they were, and defaults are not shared."""
import ast
import os

from ..effects import Effects, mutable, params
from ..names import Names, kind
from .c29 import scope_of

SKIP = ('pgp.test_keys', 'pgp.cipher.tests')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def api():
    """{(module, function): parameters that it is not to change}"""
    out = {}
    with open(os.path.join(HERE, 'api.txt')) as fh:
        for line in fh:
            if line.strip() and not line.startswith('#'):
                m, q, *ps = line.split()
                out[m, q] = ps
    return out


def check(c):
    c.rule('arguments', 'an argument of a function of the interface is not '
           'changed by it or by anything it calls', 0)
    c.rule('self', 'an object is not changed by writing, comparing, showing, '
           'signing or verifying it', 0)
    c.rule('sharing', 'a new object does not keep a list of an argument that '
           'its class changes in place', 0)
    c.rule('defaults', 'a mutable default value is not changed, kept or given '
           'away', 0)
    c.rule('class attributes', 'no method changes a mutable value that all '
           'objects of a class share', 0)
    c.guard('arguments', 'all', lambda: effects(c))


def name_of(f):
    q = scope_of(f)
    return (q + '.' if q else '') + f.name


def effects(c):
    names = Names(c.prog, SKIP)
    e = Effects(names)
    e.run()
    want = api()
    for f, m in e.funcs.items():
        q = name_of(f)
        w = '%s (%s)' % (c.where(m.name, f), q)
        bound = f in e.owner and kind(f) != 'staticmethod'
        for i, p in enumerate(params(f)):
            if p not in want.get((m.name, q), ()):
                continue
            got = e.mut[f].get(p)
            rule = 'self' if i == 0 and bound else 'arguments'
            c.ob(rule, '%s:%s %s' % (m.name, q, p), got is None,
                 '' if got is None else '%s is %s at %s' % (
                     p, got[2], c.where(got[0].name, got[1])), w)
        defaults(c, e, m, f, q, w)
        for r, got in e.mut[f].items():
            if isinstance(r, tuple) and r[0] == 'class':
                c.ob('class attributes', '%s.%s' % (r[1], r[2]), False,
                     '%s of the class %s is %s' % (r[2], r[1], got[2]),
                     '%s (%s)' % (c.where(got[0].name, got[1]), q))
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Attribute) and f.name != '__init__':
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and \
                            t.attr == n.value.attr and \
                            t.attr in e.containers and \
                            ast.dump(t.value) != ast.dump(n.value.value):
                        c.ob('sharing', '%s:%s .%s' % (m.name, q, t.attr),
                             False, 'two objects share one list .%s' % t.attr,
                             '%s (%s)' % (c.where(m.name, n), q))
        shared = [(r, a, x) for (g, r, a), x in e.shares.items()
                  if g is f and not isinstance(r, tuple) and
                  not f.name == '__init__']
        if shared or any((k, a) in e.inplace for k in [e.owner.get(f)]
                         for a in [x[2] for x in e.kept[f].values()]):
            for r, a, (sm, node) in shared:
                c.ob('sharing', '%s:%s %s %s' % (m.name, q, r, a), False,
                     'the new object keeps part of %s in .%s and changes it '
                     'in place' % (r, a), '%s (%s)' % (
                         c.where(sm.name, node), q))
    n = sum(len(v) for v in e.kept.values())
    c.ob('sharing', '%d parameters kept, %d attributes changed in place' % (
        n, len(e.inplace)), True, '', '')


def defaults(c, e, m, f, q, w):
    a = f.args
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    pairs += [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
    for p, d in pairs:
        if isinstance(d, ast.Name):
            shared = False
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == d.id
                        for t in n.targets):
                    shared = mutable(n.value)
            if not shared:
                continue
        elif not mutable(d):
            continue
        how = None
        if p.arg in e.mut[f]:
            how = 'is changed'
        elif p.arg in e.kept[f]:
            how = 'is kept in .%s' % e.kept[f][p.arg][2]
        elif p.arg in e.ret[f]:
            how = 'is returned'
        c.ob('defaults', '%s:%s %s' % (m.name, q, p.arg), how is None,
             'the default of %s %s' % (p.arg, how), w)
