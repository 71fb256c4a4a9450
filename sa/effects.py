"""Which arguments a function may change, directly or through what it calls.

For every local variable the parameters it may be, or be part of, are
collected (flow-insensitively, except that a variable rebound to something
fresh before any use of its old value is fresh).  Changes are attributed to
parameters and, through calls, to what callers pass."""
import ast
import re

from .names import EXTERNAL, kind, linear, scope_nodes

# methods of lists, dictionaries, sets and byte arrays that change them
CHANGERS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
            'reverse', 'popitem', 'setdefault', 'discard', 'appendleft',
            'popleft', 'add', 'rotate'}
# also of other things, which are meant to be changed
MAYBE = {'update'}
CACHE = re.compile(r'cache|memo|registry|known', re.I)
SAME = {'iter', 'reversed', 'enumerate', 'zip', 'filter', 'chain', 'getattr',
        'next', 'cast'}
PARTS = {'values', 'items', 'get', 'keys', '__getitem__', '__iter__'}


class Effects(object):

    def __init__(self, names):
        self.n = names
        self.funcs = {}
        self.owner = {}
        self.methods = {}
        for m in names.modules.values():
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[f] = m
        for c in names.classes.values():
            for f in c.methods.values():
                self.owner[f] = c
            if not c.module.name.endswith('interfaces'):
                for nm, f in c.methods.items():
                    self.methods.setdefault(nm, []).append((c, f))
        # f -> {parameter: (node, how)}
        self.mut = {f: {} for f in self.funcs}
        self.ret = {f: set() for f in self.funcs}
        # parameters that are kept in an attribute as they are
        self.kept = {f: {} for f in self.funcs}
        # (function, parameter, attribute): a new object keeps part of it in
        # an attribute that its class changes in place
        self.shares = {}
        self.inplace = set()
        # attributes that hold lists
        self.containers = {
            t.attr for f in self.funcs if f.name == '__init__'
            for n in ast.walk(f) if isinstance(n, ast.Assign) and
            mutable(n.value) for t in n.targets
            if isinstance(t, ast.Attribute)}
        for c in names.classes.values():
            for f in c.methods.values():
                for n in ast.walk(f):
                    x = None
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and \
                            n.func.attr in CHANGERS | MAYBE:
                        x = n.func.value
                    elif isinstance(n, ast.Subscript) and isinstance(
                            n.ctx, (ast.Store, ast.Del)):
                        x = n.value
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.value, ast.Name) and params(f)[:1] == [
                                x.value.id]:
                        self.inplace.add((c, x.attr))

    def run(self):
        for i in range(30):
            self.changed = False
            for f, m in self.funcs.items():
                Func(self, f, m).run()
            if not self.changed:
                return
        raise RuntimeError('no fixpoint')


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# what the name of a variable says of its class
SORTS = (('user_id', 'UserID'), ('attribute', 'Attribute'), ('key', 'Key'),
         ('sig', 'Signature'), ('message', 'Message'), ('msg', 'Message'),
         ('packet', 'Packet'), ('resource', 'DB'))


def narrow(e, cands):
    while isinstance(e, (ast.Call, ast.Subscript)):
        e = e.func if isinstance(e, ast.Call) else e.value
    nm = getattr(e, 'attr', getattr(e, 'id', ''))
    for w, k in SORTS:
        if w in nm:
            got = [x for x in cands if k in x[0].name]
            return got or cands
    return cands


MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
           ast.SetComp)


def mutable(v):
    return isinstance(v, MUTABLE) or isinstance(v, ast.Call) and getattr(
        v.func, 'id', getattr(v.func, 'attr', '')) in (
            'list', 'dict', 'set', 'bytearray', 'OrderedDict', 'defaultdict',
            'deque')


class Func(object):

    def __init__(self, e, f, m):
        self.e = e
        self.f = f
        self.m = m
        self.cls = e.owner.get(f)
        self.ps = params(f)
        self.env = {p: {p} for p in self.ps}
        self.first = self.ps[0] if self.cls is not None and self.ps and \
            kind(f) in ('method', 'property') else None

    def run(self):
        self.block(self.f.body)

    def change(self, roots, node, how):
        mine = self.e.mut[self.f]
        for r in roots:
            if r not in mine:
                mine[r] = (self.m, node, how)
                self.e.changed = True

    # ------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def branches(self, *bodies):
        start = {k: set(v) for k, v in self.env.items()}
        out = {}
        for b in bodies:
            self.env = {k: set(v) for k, v in start.items()}
            self.block(b)
            for k, v in self.env.items():
                out.setdefault(k, set()).update(v)
        self.env = out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            v = self.ex(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ex(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.ex(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                if self.inplace(s):
                    self.change(self.env.get(t.id, ()), s, 'augmented')
            else:
                self.store(t, s)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    self.store(t, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                r = self.ex(s.value)
                if not r <= self.e.ret[self.f]:
                    self.e.ret[self.f] |= r
                    self.e.changed = True
        elif isinstance(s, ast.If):
            self.ex(s.test)
            self.branches(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            v = self.ex(s.iter)
            self.assign(s.target, v)
            for i in range(2):
                self.branches(s.body, [])
                self.assign(s.target, v)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for i in range(2):
                self.ex(s.test)
                self.branches(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.branches(s.body, [])
            self.branches(s.orelse, *[h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            self.block(s.body)
        else:
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    self.stmt(x)
                elif isinstance(x, ast.expr):
                    self.ex(x)

    def inplace(self, s):
        """Does x += ... change a list or byte array?"""
        if not isinstance(s.op, (ast.Add, ast.BitOr, ast.Mult)):
            return False
        v = s.value
        if isinstance(v, (ast.List, ast.ListComp, ast.Set, ast.SetComp)):
            return True
        if isinstance(v, ast.Constant):
            return isinstance(v.value, bytes)
        if isinstance(v, ast.Call):
            return getattr(v.func, 'id', '') in ('bytearray', 'list', 'set',
                                                 'bytes', 'sorted')
        if isinstance(v, ast.BinOp):
            return any(isinstance(x, (ast.List, ast.ListComp)) or
                       isinstance(x, ast.Constant) and
                       isinstance(x.value, bytes)
                       for x in (v.left, v.right))
        return False

    def assign(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(t.elts):
                vs = [self.ex(x) for x in value.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y)
            else:
                for x in t.elts:
                    self.assign(x, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.store(t, t)
            if isinstance(t, ast.Attribute) and isinstance(
                    t.value, ast.Name) and t.value.id == self.first and \
                    isinstance(value, (ast.Name, ast.BoolOp, ast.IfExp)):
                for p in v:
                    if p in self.ps and p not in self.e.kept[self.f]:
                        self.e.kept[self.f][p] = (self.m, t, t.attr)
                        self.e.changed = True

    def store(self, t, node):
        """Assignment to an attribute or element changes its object."""
        b = t.value
        if isinstance(t, ast.Attribute) and self.mine(t) and (
                CACHE.search(t.attr) or t.attr.startswith('_') and
                not isinstance(node, ast.AugAssign)):
            return          # what it remembers is its own affair
        if isinstance(b, ast.Attribute) and CACHE.search(b.attr):
            return
        self.change(self.ex(b), node, 'stored into')

    # ------------------------------------------------------ expressions
    def ex(self, e):
        """The parameters the value may be, or be part of."""
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return set()
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return set(self.env[e.id])
            r = self.e.n.ns[self.m.name].get(e.id)
            if r and r[0] == 'value' and self.shared(e.id):
                return {('module', self.m.name, e.id)}
            return set()
        if isinstance(e, ast.Attribute):
            b = self.ex(e.value)
            self.getter(e, b)
            if self.mine(e) or isinstance(e.value, ast.Name) and \
                    e.value.id == 'cls':
                c = self.class_level(e.attr)
                if c is not None:
                    return b | {('class', c.name, e.attr)}
            return b
        if isinstance(e, ast.Subscript):
            self.ex(e.slice)
            b = self.ex(e.value)
            return set() if isinstance(e.slice, ast.Slice) else b
        if isinstance(e, ast.Starred):
            return self.ex(e.value)
        if isinstance(e, ast.IfExp):
            self.ex(e.test)
            return self.ex(e.body) | self.ex(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.ex(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.assign(g.target, self.ex(g.iter))
                for i in g.ifs:
                    self.ex(i)
            for x in ((e.key, e.value) if isinstance(e, ast.DictComp)
                      else (e.elt,)):
                self.ex(x)
            self.env = saved
            return set()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ex(x)
        return set()

    def shared(self, name):
        for n in self.m.tree.body:
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                return mutable(n.value)
        return False

    def class_level(self, attr):
        """The class whose instances share an attribute."""
        if self.cls is None:
            return None
        for c in linear(self.e.n, self.cls):
            if attr in c.own:
                return None
            for n in c.node.body:
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == attr
                        for t in n.targets):
                    return c if mutable(n.value) else None
        return None

    def getter(self, e, roots):
        """Reading a property may change its object."""
        if not roots or not isinstance(e.ctx, ast.Load):
            return
        for c, f in self.e.methods.get(e.attr, ()):
            if kind(f) == 'property' and params(f)[:1]:
                if self.mine(e) and c not in self.family():
                    continue
                p = params(f)[0]
                got = self.e.mut[f].get(p)
                if got is not None:
                    self.change(roots, got[1], got[2])

    def mine(self, e):
        return self.first is not None and isinstance(e.value, ast.Name) and \
            e.value.id == self.first

    def family(self):
        out = set()
        for c in self.e.n.family(self.cls):
            out |= set(self.e.n.mro(c))
        return out

    def call(self, e):
        fn = e.func
        nm = getattr(fn, 'id', getattr(fn, 'attr', ''))
        args = [self.ex(a) for a in e.args]
        kws = {k.arg: self.ex(k.value) for k in e.keywords}
        recv = self.ex(fn.value) if isinstance(fn, ast.Attribute) else set()
        if not isinstance(fn, (ast.Name, ast.Attribute)):
            self.ex(fn)
        if isinstance(fn, ast.Name) and nm in ('setattr', 'delattr') and args:
            self.change(args[0], e, 'stored into')
            return set()
        targets = self.targets(fn, nm)
        if targets:
            out = set()
            for f, skip in targets:
                out |= self.into(f, skip, e, args, kws, recv)
            return out
        if isinstance(fn, ast.Attribute):
            if nm in CHANGERS and not CACHE.search(
                    getattr(fn.value, 'attr', '')):
                self.change(recv, e, 'changed by .%s()' % nm)
                return recv if nm in ('pop', 'setdefault') else set()
            if nm in PARTS:
                return recv
            return set()
        if nm in SAME:
            return set().union(*args) if args else set()
        return set()

    def into(self, f, skip, e, args, kws, recv):
        ps = params(f)
        given = {}
        pos = ps[1:] if skip else ps
        if skip and skip != 'new' and ps:
            given[ps[0]] = recv
        if not any(isinstance(a, ast.Starred) for a in e.args):
            for p, v in zip(pos, args):
                given[p] = v
        for k, v in kws.items():
            if k in ps:
                given[k] = v
        for p, v in given.items():
            got = self.e.mut[f].get(p)
            if got is not None and v:
                self.change(v, got[1], got[2])
        if skip == 'new':
            self.sharing(f, e, given)
            return set()
        out = set()
        for p in self.e.ret[f]:
            out |= {p} if isinstance(p, tuple) else given.get(p, set())
        return out

    def sharing(self, f, e, given):
        c = self.e.owner[f]
        near = set(self.e.n.family(c))
        for x in list(near):
            near |= set(self.e.n.mro(x))
        for p, (m, n, attr) in self.e.kept[f].items():
            if any((k, attr) in self.e.inplace for k in near):
                for r in given.get(p, ()):
                    self.e.shares[(self.f, r, attr)] = (self.m, e)

    def targets(self, fn, nm):
        names = self.e.n
        r = self.resolve(fn)
        if r is not None and r[0] == 'def':
            if isinstance(r[2], ast.ClassDef):
                return self.init(names.classes[r[2]])
            return [(r[2], False)]
        if isinstance(fn, ast.Name):
            if fn.id == 'cls' and self.cls is not None:
                out = []
                for leaf in names.family(self.cls):
                    out += self.init(leaf)
                return out
            for n in scope_nodes(self.f.body):
                if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                    return [(n, False)]
            return []
        if not isinstance(fn, ast.Attribute):
            return []
        rb = self.resolve(fn.value)
        if rb is not None and rb[0] == 'def' and isinstance(
                rb[2], ast.ClassDef):
            x = names.method(names.classes[rb[2]], nm)
            return [] if x is None else [
                (x[1], kind(x[1]) == 'classmethod')]
        if rb is not None and rb[0] in ('mod', 'unknown'):
            return []
        v = fn.value
        if isinstance(v, ast.Call) and getattr(
                v.func, 'id', '') == 'super' and self.cls is not None:
            out = []
            for c in linear(names, self.cls)[1:]:
                if nm in c.methods:
                    return [(c.methods[nm], 'new')]
            return out
        cands = self.e.methods.get(nm, ())
        if self.mine(fn):
            fam = self.family()
            got = [(f, kind(f) != 'staticmethod') for c, f in cands
                   if c in fam]
            if got:
                return got
        if nm in EXTERNAL:
            return []
        return [(f, kind(f) != 'staticmethod')
                for c, f in narrow(fn.value, cands)]

    def init(self, cl):
        for c in linear(self.e.n, cl):
            if '__init__' in c.methods:
                return [(c.methods['__init__'], 'new')]
        return []

    def resolve(self, e):
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name) or x.id in self.env:
            return None
        return self.e.n.resolve_expr(self.m, e)
