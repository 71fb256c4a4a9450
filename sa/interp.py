"""Interprocedural gated value-flow analysis (abstract interpretation).

Every function is interpreted once per calling context over the term domain of
`terms`; branches are joined with phi terms, loops are widened to loop
variables and summarised, calls to functions of the analysed package are
inlined (bounded), everything else is opaque.  No code of the analysed package
is executed and no path is enumerated: there is one abstract state per program
point.
"""
import ast
import copy
import errno
import hashlib
import posixpath
import builtins
import math
import time

from . import terms as tm
from .terms import (mk, const, is_const, cval, NONE, TRUE, FALSE, ZERO, phi,
                    cmp_, and_, or_, not_, bool_, is_int_const)
from .program import AnalysisError, Budget, Missing


class Obj(object):
    __slots__ = ('kind', 'cls', 'attrs', 'parts', 'entries', 'open', 'root',
                 'ctor', 'log', 'more')

    def __init__(self, kind, cls=None):
        self.kind = kind
        self.cls = cls
        self.attrs = {}
        self.parts = ()
        self.entries = {}
        self.open = False
        self.root = None
        self.ctor = None
        self.log = ()
        self.more = None

    def copy(self):
        o = Obj(self.kind, self.cls)
        o.attrs = dict(self.attrs)
        o.parts = self.parts
        o.entries = dict(self.entries)
        o.open = self.open
        o.root = self.root
        o.ctor = self.ctor
        o.log = self.log
        o.more = self.more
        return o

    def same(self, o):
        return (self is o or (
            self.kind == o.kind and self.cls == o.cls
            and self.attrs == o.attrs and self.parts == o.parts
            and self.entries == o.entries and self.log == o.log
            and self.more == o.more))


class State(object):
    __slots__ = ('env', 'heap', 'path')

    def __init__(self, env, heap, path):
        self.env = env
        self.heap = heap
        self.path = path

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.path)

    def w(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        return o


class Exit(object):
    def __init__(self, kind, path, value, heap, node, fn, extra=None):
        self.kind = kind          # 'return' | 'raise'
        self.path = path
        self.value = value
        self.heap = heap
        self.node = node
        self.fn = fn
        self.env = extra
        self.owner = fn           # the function whose variables env holds


class Event(object):
    __slots__ = ('kind', 'name', 'args', 'kw', 'result', 'path', 'node', 'fn',
                 'loops', 'idx', 'base', 'stack', 'trys')

    def __repr__(self):
        return '<%s %s %r>' % (self.kind, self.name, self.args)


class Func(object):
    def __init__(self, fid, node, module, closure, cls, kind='plain'):
        self.fid = fid
        self.node = node
        self.module = module
        self.closure = closure     # list of env dicts, innermost first
        self.cls = cls             # qualified name of defining class
        self.kind = kind           # plain | static | class
        self.name = getattr(node, 'name', '<lambda>')
        self.defaults = None


class Cls(object):
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []
        self.env = {}


class Frame(object):
    def __init__(self, func, module, selfcls=None):
        self.func = func
        self.module = module
        self.returns = []
        self.loops = []        # list of dict(breaks=[], continues=[])
        self.closure = []
        self.cls = selfcls
        self.is_class = False
        self.yields = None
        self.globals_decl = set()
        self.localnames = frozenset()


MAXDEPTH = 14
MAXUNROLL = 1100

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
            'reverse', 'update', 'add', 'discard', 'setdefault', 'popleft',
            'appendleft', 'popitem', '__setitem__', '__delitem__'}
# methods that leave a list or set as it is
READERS = {'index', 'count', 'copy', 'union', 'intersection', 'difference',
           'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset',
           '__contains__', '__len__', '__getitem__', '__iter__', '__eq__',
           '__ne__', '__reversed__', '__bool__', '__repr__', '__str__',
           '__add__', '__or__', '__and__', '__sub__', '__hash__', 'items',
           'keys', 'values', 'get', '__sizeof__'}

EXC_PARENT = {}
for _n in dir(builtins):
    _v = getattr(builtins, _n)
    if isinstance(_v, type) and issubclass(_v, BaseException):
        EXC_PARENT[_n] = [c.__name__ for c in _v.__mro__]
EXC_PARENT['socket.error'] = ['socket.error', 'OSError', 'Exception',
                              'BaseException']


class Interp(object):
    maxrec = 1

    def __init__(self, prog, intrinsics=None, opaque=(), max_steps=400000):
        self.prog = prog
        self.funcs = {}
        self.classes = {}
        self.modenv = {}
        self.modheap = {}
        self.intr = intrinsics or {}
        # are only exceptions considered that the source or a model raises?
        self.explicit_only = False
        # are digests of known octets computed?
        self.fold_digests = False
        self.opaque = set(opaque)
        self.noinline = set()
        self.events = []
        self.oid = 0
        self.loopid = 0
        self.stack = []
        self.sinks = []
        self.frames = []
        self.trystack = []
        self.loopstack = []
        self.loopinfo = {}
        self.index_alias = {}
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + 3600
        self.analysed = set()
        self.notes = []
        self.callsites = 0
        self.nclosure = 0
        self.iters = set()

    # ---------------------------------------------------------------- setup
    def new_obj(self, st, kind, cls=None):
        self.oid += 1
        o = Obj(kind, cls)
        st.heap[self.oid] = o
        return mk('obj', self.oid), o

    def mod_env(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.prog.module(name)
        env = {}
        self.modenv[name] = env
        env['__name__'] = const(name)
        fr = Frame(None, m)
        fr.is_class = True
        fr.closure = [env]
        st = State(env, self.modheap, ())
        # run module body: env is shared (module scope)
        saved = (self.frames, self.sinks, self.loopstack, self.trystack,
                 self.stack, self.events)
        self.frames, self.sinks, self.loopstack, self.trystack = \
            [fr], [[]], [], []
        self.stack = []
        self.events = []
        try:
            for s in m.tree.body:
                st2 = self.exec_stmt(s, st, fr)
                if st2 is None:
                    break
                if st2 is not st:
                    if st2.env is not env:
                        for k, v in st2.env.items():
                            env[k] = v
                    if st2.heap is not self.modheap:
                        self.modheap.update(st2.heap)
                    st = State(env, self.modheap, ())
        finally:
            (self.frames, self.sinks, self.loopstack, self.trystack,
             self.stack, self.events) = saved
        return env

    def ext_attr(self, modname, attr):
        full = modname + '.' + attr
        if full in EXT_CONSTS:
            return const(EXT_CONSTS[full])
        m = self.prog.modules.get(modname) if modname in OPAQUE else None
        if m is not None:
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and isinstance(
                        s.value, ast.Constant) and any(
                        isinstance(t, ast.Name) and t.id == attr
                        for t in s.targets):
                    return const(s.value.value)
                if isinstance(s, ast.Assign) and isinstance(
                        s.value, ast.Attribute) and isinstance(
                        s.value.value, ast.Name) and any(
                        isinstance(t, ast.Name) and t.id == attr
                        for t in s.targets):
                    v = class_const(m.tree, s.value.value.id, s.value.attr)
                    if v is not None:
                        return const(v)
        return mk('ext', full)

    def module_attr(self, modname, attr, st=None):
        if modname + '.' + attr in OPAQUE:
            return mk('ext', modname + '.' + attr)
        if modname in self.prog.modules:
            env = self.mod_env(modname)
            if st is not None:
                for k, v in self.modheap.items():
                    if k not in st.heap:
                        st.heap[k] = v
            if attr in env:
                return env[attr]
            sub = modname + '.' + attr
            if sub in self.prog.modules:
                return mk('mod', sub)
            # binding later in a cyclic import: look for def/class
            return None
        return mk('ext', modname + '.' + attr)

    def lookup_dotted(self, modname, qual, st):
        t = self.module_attr(modname, qual.split('.')[0], st)
        if t is None:
            raise Missing('%s.%s not found' % (modname, qual))
        for p in qual.split('.')[1:]:
            if t.op == 'class':
                v = self.class_lookup(t.args[0], p)
                if v is None:
                    raise Missing('%s.%s not found' % (modname, qual))
                t = v
            else:
                raise Missing('%s.%s not found' % (modname, qual))
        return t

    # -------------------------------------------------------------- classes
    def mro(self, cname):
        """C3 linearisation over known classes; ext bases kept as names."""
        c = self.classes.get(cname)
        if c is None:
            return [cname]
        seqs = []
        for b in c.bases:
            if b.op == 'class':
                seqs.append(list(self.mro(b.args[0])))
            elif b.op == 'ext':
                seqs.append([b.args[0]])
            else:
                seqs.append(['?' + tm.show(b)])
        seqs.append([(b.args[0] if b.op in ('class', 'ext') else
                      '?' + tm.show(b)) for b in c.bases])
        out = [cname]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s[0] == h:
                    del s[0]
                elif h in s:
                    s.remove(h)

    def class_lookup(self, cname, attr, after=None):
        mro = self.mro(cname)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for n in mro:
            c = self.classes.get(n)
            if c is not None and attr in c.env:
                return c.env[attr]
        return None

    def is_subclass(self, cname, target):
        return target in self.mro(cname)

    def self_assigned(self, cname):
        """Names assigned on `self` anywhere in the class hierarchy."""
        out = set()
        for n in self.mro(cname):
            c = self.classes.get(n)
            if c is None:
                continue
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store):
                    out.add(x.attr)
        return out

    # ------------------------------------------------------------------ run
    def fresh_state(self):
        heap = dict(self.modheap)
        return State({}, heap, ())

    def run(self, modname, qual, args=None, kwargs=None, setup=None,
            facts=()):
        """Interpret a function; args maps parameter names to terms."""
        self.mod_env(modname)
        st = self.fresh_state()
        fn = self.lookup_dotted(modname, qual, st)
        if fn.op == 'prop':
            fn = fn.args[0]
        if fn.op != 'func':
            raise Missing('%s.%s is not a function' % (modname, qual))
        a = {}
        if setup is not None:
            a = setup(self, st) or {}
        if args:
            a.update(args)
        return self.run_func(fn, a, st, facts)

    def run_func(self, fn, a, st, facts=(), selfterm=None):
        f = self.funcs[fn.args[0]]
        for k, v in self.modheap.items():
            if k not in st.heap:
                st.heap[k] = v
        st.path = tuple(facts)
        self.sinks.append([])
        ev0 = len(self.events)
        fr, value, st2 = self.invoke(f, None, None, st, f.node, bound=a)
        res = Result()
        res.raises = self.sinks.pop()
        res.returns = fr.returns
        res.value = value
        res.state = st2
        res.heap = st2.heap if st2 else {}
        res.events = self.events[ev0:]
        res.func = f
        res.ip = self
        return res

    def sym_inst(self, st, modname, cname, root=None, attrs=None, open_=True,
                 types=None):
        """An instance of a class whose attributes are symbolic inputs."""
        self.mod_env(modname)
        for k, v in self.modheap.items():
            if k not in st.heap:
                st.heap[k] = v
        c = self.module_attr(modname, cname, st)
        if c is None or c.op != 'class':
            raise Missing('class %s.%s not found' % (modname, cname))
        t, o = self.new_obj(st, 'inst', c.args[0])
        o.open = open_
        o.root = root if root is not None else tm.sym('self')
        if attrs:
            o.attrs.update(attrs)
        o.more = types or {}
        return t

    def new_list(self, st, items):
        t, o = self.new_obj(st, 'list')
        o.parts = tuple(('e', x) for x in items)
        return t

    # ------------------------------------------------------------- functions
    def bind(self, f, args, kwargs, st, node):
        """Parameter binding -> env dict (or None with a note on mismatch)."""
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        star = None
        flat = []
        for x in args:
            if isinstance(x, tuple) and x[0] == '*':
                items = self.concrete_items(x[1], st)
                if items is None:
                    star = x[1]
                else:
                    flat.extend(items)
            else:
                flat.append(x)
        rest = []
        for i, v in enumerate(flat):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        kwrest = {}
        dstar = None
        for k, v in (kwargs or ()):
            if k is None:
                d = None
                if v.op == 'obj' and st.heap[v.args[0]].kind == 'dict':
                    d = st.heap[v.args[0]]
                if d is not None and d.more is None:
                    for kk, vv in d.entries.items():
                        kname = cval(kk) if is_const(kk) else None
                        if kname in names or kname in [
                                z.arg for z in a.kwonlyargs]:
                            env[kname] = vv
                        else:
                            kwrest[kname] = vv
                else:
                    dstar = v
            elif k in names or k in [z.arg for z in a.kwonlyargs]:
                env[k] = v
            else:
                kwrest[k] = v
        defaults = f.defaults or ([], {})
        dn = names[len(names) - len(defaults[0]):] if defaults[0] else []
        for n, d in zip(dn, defaults[0]):
            if n not in env:
                if star is not None or dstar is not None:
                    env[n] = tm.unk('stararg', star or dstar)
                else:
                    env[n] = d
        for k in a.kwonlyargs:
            if k.arg not in env:
                if k.arg in defaults[1]:
                    env[k.arg] = defaults[1][k.arg]
        for i, n in enumerate(names):
            if n not in env:
                if star is not None:
                    env[n] = tm.item(star, const(i - len(flat)))
                elif dstar is not None:
                    env[n] = tm.item(dstar, const(n))
                else:
                    env[n] = mk('missing', f.name, n)
        if a.vararg:
            if star is not None:
                env[a.vararg.arg] = star if not rest else mk(
                    'unk', 'varargs', star, *rest)
            else:
                env[a.vararg.arg] = mk('tuple', *rest)
        if a.kwarg:
            t, o = self.new_obj(st, 'dict')
            for k, v in kwrest.items():
                o.entries[const(k)] = v
            if dstar is not None:
                o.more = dstar
            env[a.kwarg.arg] = t
        return env

    def invoke(self, f, args, kwargs, st, node, bound=None):
        """Run function body; returns (frame, value, state-or-None)."""
        env = {}
        if bound is not None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            defaults = f.defaults or ([], {})
            dn = [x.arg for x in a.posonlyargs + a.args]
            dmap = dict(zip(dn[len(dn) - len(defaults[0]):], defaults[0]))
            dmap.update(defaults[1])
            for n in names:
                if n in bound:
                    env[n] = bound[n]
                elif n in dmap and is_const(dmap[n]) and \
                        bound.get('__defaults__', True):
                    env[n] = dmap[n]
                else:
                    env[n] = tm.sym(n)
            if a.vararg:
                env[a.vararg.arg] = bound.get(a.vararg.arg,
                                              tm.sym(a.vararg.arg))
            if a.kwarg:
                env[a.kwarg.arg] = bound.get(a.kwarg.arg,
                                             tm.sym(a.kwarg.arg))
        else:
            env = self.bind(f, args, kwargs, st, node)
        fr = Frame(f, f.module)
        fr.closure = f.closure
        fr.cls = f.cls
        fr.localnames = local_names(f.node)
        if has_yield(f.node):
            fr.yields = True
            t, o = self.new_obj(st, 'list')
            env['\0yield'] = t
        st2 = State(env, st.heap, st.path)
        base = st.path
        self.stack.append((f.module.name, f.cls, f.name, node))
        self.frames.append(fr)
        saved_loops = self.loopstack
        self.loopstack = list(saved_loops)
        sink, sink0 = self.sinks[-1], len(self.sinks[-1])
        self.analysed.add((f.module.name, (f.cls.split(':')[-1] + '.'
                                           if f.cls else '') + f.name))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st2, fr)
                fr.returns.append(Exit('return', st2.path, v, st2.heap,
                                       f.node, f))
            else:
                end = self.exec_block(f.node.body, st2, fr)
                if end is not None:
                    if not (len(fr.returns) == 0 and False):
                        fr.returns.append(Exit('return', end.path, NONE,
                                               end.heap, f.node, f, end.env))
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loopstack = saved_loops
        if self.frames and self.sinks[-1] is sink:
            for x in sink[sink0:]:
                # seen from the caller
                x.env = dict(st.env)
                x.owner = self.frames[-1].func
        if fr.yields:
            yl = env['\0yield']
            for x in fr.returns:
                x.value = yl
        if not fr.returns:
            return fr, None, None
        value, heap, path = self.merge_exits(fr.returns, base)
        out = State(st.env, heap, path)
        return fr, value, out

    def merge_exits(self, exits, base):
        last = exits[-1]
        value, heap = last.value, last.heap
        n = len(base)
        common = [p for p in last.path[n:]] if last.path[:n] == base else [
            p for p in last.path if p not in base]
        lastpath = last.path
        for x in reversed(exits[:-1]):
            extra = [p for p in x.path if p not in base]
            c = and_(*extra)
            c = self.wrap_exists(c)
            value = phi(c, x.value, value)
            heap = self.merge_heap(c, x.heap, heap)
            common = [p for p in common if p in x.path]
        return value, heap, tuple(base) + tuple(common)

    def wrap_exists(self, c):
        """A condition about a loop iteration, seen from outside the loop."""
        mine = set(id(l) for l in self.loopstack)
        loops = set()
        for s in tm.subterms(c):
            if s.op == 'each' and not any(
                    l.get('elem') is s for l in self.loopstack):
                loops.add(s)
        if loops:
            return mk('exists', c)
        return c

    # ------------------------------------------------------------- joining
    def merge_heap(self, c, ha, hb):
        if ha is hb:
            return ha
        out = {}
        for k in set(ha) | set(hb):
            a, b = ha.get(k), hb.get(k)
            if a is None or b is None:
                out[k] = a or b
            elif a is b or a.same(b):
                out[k] = a
            else:
                out[k] = self.merge_obj(c, a, b)
        return out

    def merge_obj(self, c, a, b):
        if a.kind != b.kind:
            o = a.copy()
            o.kind = 'ext'
            o.ctor = tm.unk('mergedobj')
            return o
        o = a.copy()
        if a.kind in ('inst', 'module', 'stream'):
            for k in set(a.attrs) | set(b.attrs):
                va = a.attrs.get(k)
                vb = b.attrs.get(k)
                if va is None:
                    va = mk('attr', a.root, k) if a.open else mk('unbound', k)
                if vb is None:
                    vb = mk('attr', b.root, k) if b.open else mk('unbound', k)
                o.attrs[k] = phi(c, va, vb)
        elif a.kind in ('list', 'set', 'bytes'):
            pa, pb = list(a.parts), list(b.parts)
            pre = []
            while pa and pb and pa[0] == pb[0]:
                pre.append(pa.pop(0))
                pb.pop(0)
            suf = []
            while pa and pb and pa[-1] == pb[-1]:
                suf.insert(0, pa.pop())
                pb.pop()
            mid = []
            if len(pa) == 1 and len(pb) == 1 and pa[0][0] == 'e' and \
                    pb[0][0] == 'e':
                mid = [('e', phi(c, pa[0][1], pb[0][1]))]
            elif pa or pb:
                mid = [('alt', c, tuple(pa), tuple(pb))]
            o.parts = tuple(pre + mid + suf)
        elif a.kind == 'dict':
            for k in set(a.entries) | set(b.entries):
                va, vb = a.entries.get(k), b.entries.get(k)
                if va is None:
                    va = mk('absent')
                if vb is None:
                    vb = mk('absent')
                o.entries[k] = phi(c, va, vb)
            if a.more != b.more:
                o.more = a.more or b.more
        elif a.kind == 'hash':
            o.ctor = phi(c, a.ctor, b.ctor)
            pa, pb = list(a.parts), list(b.parts)
            pre = []
            while pa and pb and pa[0] == pb[0]:
                pre.append(pa.pop(0))
                pb.pop(0)
            o.parts = tuple(pre) + ((('alt', c, tuple(pa), tuple(pb)),)
                                    if pa or pb else ())
        elif a.kind == 'ext':
            o.ctor = phi(c, a.ctor, b.ctor)
            if a.log != b.log:
                n = 0
                while n < min(len(a.log), len(b.log)) and \
                        a.log[n] == b.log[n]:
                    n += 1
                o.log = a.log[:n] + (('alt', c, a.log[n:], b.log[n:]),)
        return o

    def join(self, c, a, b, base):
        if a is None:
            return b
        if b is None:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va is None:
                va = mk('unbound', k)
            if vb is None:
                vb = mk('unbound', k)
            env[k] = phi(c, va, vb)
        heap = self.merge_heap(c, a.heap, b.heap)
        n = len(base)
        bset, aset = set(b.path), set(a.path)
        known = set(base)
        extra = [p for p in a.path if p not in known and p in bset]
        # what only one side established holds if that side was taken
        known.update(extra)
        known.update(c.args if c.op == 'and' else (c,))
        n = not_(c)
        known.update(n.args if n.op == 'and' else (n,))
        for side, other in ((a, n), (b, c)):
            rest = [p for p in side.path if p not in known and
                    not tm.contains(p, lambda x: x.op in ('exc', 'caught'))]
            if rest:
                f = or_(other, and_(*rest))
                if f is not TRUE and f not in known:
                    extra.append(f)
        return State(env, heap, tuple(base) + tuple(extra))

    def assume(self, st, c):
        """Add a fact; returns False if it contradicts."""
        facts = list(c.args) if c.op == 'and' else [c]
        for f in facts:
            if f is TRUE:
                continue
            if f is FALSE:
                return False
            if f.op == 'bool':
                pass
            if f not in st.path:
                st.path = st.path + (f,)
        return True

    # ------------------------------------------------------------- deciding
    def decide(self, c, st):
        v = tm.truth(c)
        if v is not None:
            return v
        path = st.path
        if c in path:
            return True
        n = not_(c)
        if n in path:
            return False
        if c.op == 'and':
            rs = [self.decide(x, st) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if c.op == 'or':
            rs = [self.decide(x, st) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            for f in path:
                if f.op == 'or' and all(x in c.args for x in f.args):
                    return True
            return None
        if c.op == 'not':
            r = self.decide(c.args[0], st)
            return None if r is None else not r
        if c.op == 'phi':
            g = self.decide(c.args[0], st)
            if g is not None:
                return self.decide(bool_(c.args[1 if g else 2]), st)
            a, b = (self.decide(bool_(c.args[1]), st),
                    self.decide(bool_(c.args[2]), st))
            if a is not None and a == b:
                return a
            return None
        if c.op == 'bool':
            x = c.args[0]
            for f in path:
                if f.op == 'cmp' and f.args[0] == 'is' and \
                        f.args[1] is x and f.args[2] is NONE:
                    return False
                if f.op == 'cmp' and f.args[0] == '==' and \
                        f.args[2] is x and is_const(f.args[1]):
                    return bool(cval(f.args[1]))
                if f.op == 'cmp' and f.args[0] == '==' and \
                        f.args[1] is x and is_const(f.args[2]):
                    return bool(cval(f.args[2]))
            return None
        if c.op == 'cmp':
            op, a, b = c.args
            if op in ('is', 'is not') and b is NONE:
                for f in path:
                    if f.op == 'bool' and f.args[0] is a:
                        return op == 'is not'
                    if f.op == 'cmp' and f.args[0] in ('==',) and (
                            f.args[1] is a or f.args[2] is a):
                        o = f.args[2] if f.args[1] is a else f.args[1]
                        if is_const(o) and o is not NONE:
                            return op == 'is not'
                return None
            if op in ('==', '!='):
                k, x = (a, b) if is_const(a) else (b, a)
                if is_const(k):
                    for f in path:
                        if f.op == 'cmp' and f.args[0] == '==':
                            o = None
                            if f.args[1] is x:
                                o = f.args[2]
                            elif f.args[2] is x:
                                o = f.args[1]
                            if o is not None and is_const(o):
                                r = cmp_(op, o, k)
                                if is_const(r):
                                    return bool(cval(r))
                        if f.op == 'or':
                            vs = eq_consts(f, x)
                            if vs is not None and k not in vs:
                                return op == '!='
                    if is_int_const(k):
                        lo, hi = self.range_of(x, st)
                        v = cval(k)
                        if (lo is not None and v < lo) or (
                                hi is not None and v > hi):
                            return op == '!='
                        if lo is not None and lo == hi == v:
                            return op == '=='
                    for f in path:
                        if f.op == 'cmp' and f.args[0] == 'is' and \
                                f.args[1] is x and f.args[2] is NONE:
                            return (op == '==') == (k is NONE)
                else:
                    d = tm.sub(a, b) if (tm.type_of(a) == 'int' or
                                         tm.type_of(b) == 'int') else None
                    if d is not None:
                        lo, hi = self.range_of(d, st)
                        if (lo is not None and lo > 0) or (
                                hi is not None and hi < 0):
                            return op == '!='
                return None
            if op in ('<=', '>=') and is_int_const(b):
                lo, hi = self.range_of(a, st)
                v = cval(b)
                if op == '<=':
                    if hi is not None and hi <= v:
                        return True
                    if lo is not None and lo > v:
                        return False
                else:
                    if lo is not None and lo >= v:
                        return True
                    if hi is not None and hi < v:
                        return False
        return None

    def range_of(self, x, st, depth=0):
        lo, hi = None, None
        if is_int_const(x):
            return int(cval(x)), int(cval(x))
        if depth > 6:
            return lo, hi
        op = x.op
        if op == 'lin':
            lo, hi = x.args[0], x.args[0]
            for a, k in x.args[1]:
                l, h = self.range_of(a, st, depth + 1)
                if k < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
        elif op == 'bits':
            y, s, w = x.args
            l, h = self.range_of(y, st, depth + 1)
            if w is not None:
                lo, hi = 0, (1 << w) - 1
            if l is not None and l >= 0:
                if w is None:
                    lo = l >> s
                    hi = None if h is None else h >> s
                elif h is not None and (h >> s) < (1 << w):
                    lo, hi = l >> s, h >> s
        elif op == 'item' and tm.type_of(x) == 'int':
            lo, hi = 0, 255
        elif op == 'rd':
            lo, hi = 0, (1 << (8 * x.args[2])) - 1
        elif op in ('len', 'bitlen', 'mpilen', 'idx'):
            lo = 0
        elif op == 'exactint':
            k = x.args[1]
            lo, hi = (1 << k) >> 1, (1 << k) - 1
        elif op == 'phi':
            g = self.decide(x.args[0], st)
            if g is not None:
                return self.range_of(x.args[1 if g else 2], st, depth + 1)
            l1, h1 = self.range_of(x.args[1], st, depth + 1)
            l2, h2 = self.range_of(x.args[2], st, depth + 1)
            lo = None if l1 is None or l2 is None else min(l1, l2)
            hi = None if h1 is None or h2 is None else max(h1, h2)
        c0, p0 = tm.lin_parts(x)
        for f in st.path:
            if f.op != 'cmp' or f.args[0] not in ('<=', '>=', '=='):
                continue
            o, a, b = f.args
            if o == '==' and is_const(a):
                a, b = b, a
            if not is_int_const(b):
                continue
            v = int(cval(b))
            ca, pa = tm.lin_parts(a)
            s = None
            if pa == p0:
                s = 1
            elif pa == {k: -q for k, q in p0.items()}:
                s = -1
            if s is None:
                continue
            # a = ca + L ; x = c0 + s*L
            # L op v - ca
            L = v - ca
            ops = o
            if s == -1:
                L = -L
                ops = {'<=': '>=', '>=': '<=', '==': '=='}[o]
            val = c0 + L
            if ops in ('<=', '=='):
                hi = val if hi is None else min(hi, val)
            if ops in ('>=', '=='):
                lo = val if lo is None else max(lo, val)
        # facts of inequality at the ends
        for f in st.path:
            if f.op == 'cmp' and f.args[0] == '!=' and (
                    f.args[1] is x or f.args[2] is x):
                k = f.args[2] if f.args[1] is x else f.args[1]
                if is_int_const(k):
                    if lo is not None and cval(k) == lo:
                        lo += 1
                    if hi is not None and cval(k) == hi:
                        hi -= 1
        return lo, hi

    def simp(self, t, st):
        """Resolve phis at the top of a term whose condition is decided."""
        while t.op == 'phi':
            g = self.decide(t.args[0], st)
            if g is None:
                return t
            t = t.args[1] if g else t.args[2]
        return t

    # -------------------------------------------------------------- events
    def event(self, kind, name, args, kw, st, node, result=None, base=None):
        e = Event()
        e.kind = kind
        e.name = name
        e.args = args
        e.kw = kw
        e.result = result
        e.path = st.path
        e.node = node
        fr = self.frames[-1] if self.frames else None
        e.fn = fr
        e.loops = tuple(l['id'] for l in self.loopstack)
        e.stack = tuple(self.stack)
        e.trys = tuple(self.trystack)
        e.idx = len(self.events)
        e.base = base
        self.events.append(e)
        return e

    def note(self, msg, node=None):
        self.notes.append((msg, getattr(node, 'lineno', None)))

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st, fr)
        return st

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps or (
                self.steps & 1023 == 0 and time.time() > self.deadline):
            raise Budget('analysis budget exceeded')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Budget('unsupported statement ' + type(s).__name__)
        return m(s, st, fr)

    def x_Pass(self, s, st, fr):
        return st

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        try:
            self.ev(s.value, st, fr)
        except Dead:
            return None
        return st

    def x_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)
        return st

    def x_Nonlocal(self, s, st, fr):
        raise Budget('nonlocal')

    def x_Import(self, s, st, fr):
        for a in s.names:
            name = a.name
            if a.asname:
                st.env[a.asname] = self.mod_term(name)
            else:
                st.env[name.split('.')[0]] = self.mod_term(
                    name.split('.')[0])
        return st

    def mod_term(self, name):
        if name in OPAQUE:
            return mk('ext', name)
        if name in self.prog.modules:
            return mk('mod', name)
        return mk('ext', name)

    def x_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            parts = fr.module.name.split('.')
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                if base in self.prog.modules:
                    for k, v in self.mod_env(base).items():
                        if not k.startswith('_'):
                            st.env[k] = v
                continue
            nm = a.asname or a.name
            if base + '.' + a.name in OPAQUE:
                v = mk('ext', base + '.' + a.name)
                st.env[nm] = v
            elif base in OPAQUE:
                st.env[nm] = self.ext_attr(base, a.name)
            elif base in self.prog.modules:
                v = self.module_attr(base, a.name, st)
                if v is None:
                    v = mk('lazy', base, a.name)
                st.env[nm] = v
            else:
                full = base + '.' + a.name
                st.env[nm] = self.mod_term(full) if full in \
                    self.prog.modules else self.ext_attr(base, a.name)
        return st

    def make_func(self, node, st, fr, kind='plain'):
        q = fr.module.name + ':' + (
            fr.cls + '.' if fr.is_class and fr.cls else '') + \
            getattr(node, 'name', '<lambda>')
        if fr.func is not None or isinstance(node, ast.Lambda):
            self.nclosure += 1
            fid = '%s#%d@%d' % (q, node.lineno, self.nclosure)
        else:
            fid = q + '#%d' % node.lineno
        if fr.is_class:
            closure = [] if fr.cls is None else list(fr.closure[1:])
            if fr.cls is None:
                closure = []
        else:
            closure = [st.env] + list(fr.closure)
        f = Func(fid, node, fr.module, closure,
                 fr.cls if fr.is_class else fr.cls, kind)
        a = node.args
        f.defaults = ([self.ev(d, st, fr) for d in a.defaults],
                      {k.arg: self.ev(d, st, fr)
                       for k, d in zip(a.kwonlyargs, a.kw_defaults)
                       if d is not None})
        self.funcs[fid] = f
        return mk('func', fid)

    def x_FunctionDef(self, s, st, fr):
        t = self.make_func(s, st, fr)
        f = self.funcs[t.args[0]]
        for d in reversed(s.decorator_list):
            dt = None
            if isinstance(d, ast.Name):
                dt = d.id
            if dt == 'staticmethod':
                f.kind = 'static'
                t = mk('static', t)
                continue
            if dt == 'classmethod':
                f.kind = 'class'
                t = mk('classm', t)
                continue
            if dt == 'property':
                t = mk('prop', t, NONE)
                continue
            if isinstance(d, ast.Attribute) and d.attr in (
                    'setter', 'getter', 'deleter'):
                b = self.ev(d.value, st, fr)
                if b.op == 'prop':
                    if d.attr == 'setter':
                        t = mk('prop', b.args[0], t)
                    elif d.attr == 'getter':
                        t = mk('prop', t, b.args[1])
                    else:
                        t = b
                    continue
            dv = self.ev(d, st, fr)
            if dv.op == 'ext' and dv.args[0] in (
                    'contextlib.contextmanager',):
                f.kind = 'ctx' if f.kind == 'plain' else f.kind
                t = mk('ctxfunc', t)
                continue
            if dv.op == 'ext' and dv.args[0].startswith(('abc.', 'zope.',
                                                         'functools.')):
                continue
            if dv.op in ('func', 'bound'):
                t = self.call(dv, [t], [], st, d)
            # other decorators ignored
        st.env[s.name] = t
        return st

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, fr):
        q = fr.module.name + ':' + (fr.cls.split(':')[1] + '.'
                                    if fr.is_class and fr.cls else '') + \
            s.name
        c = Cls(q, fr.module, s)
        self.classes[q] = c
        for b in s.bases:
            t = self.ev(b, st, fr)
            if t.op == 'lazy':
                t = self.module_attr(t.args[0], t.args[1], st) or t
            if t.op == 'call' and 'with_metaclass' in t.args[0]:
                c.bases.extend(t.args[1][1:])
                continue
            c.bases.append(t)
        cf = Frame(None, fr.module)
        cf.is_class = True
        cf.cls = q
        cf.closure = [c.env] + ([] if fr.is_class and fr.cls is None
                                else list(fr.closure))
        cst = State(c.env, st.heap, st.path)
        self.frames.append(cf)
        try:
            for x in s.body:
                r = self.exec_stmt(x, cst, cf)
                if r is None:
                    break
                if r is not cst:
                    c.env.update(r.env)
                    cst = State(c.env, r.heap, r.path)
            st.heap = cst.heap
        finally:
            self.frames.pop()
        st.env[s.name] = mk('class', q)
        return st

    def x_Return(self, s, st, fr):
        try:
            v = NONE if s.value is None else self.ev(s.value, st, fr)
        except Dead:
            return None
        fr.returns.append(Exit('return', st.path, v, st.heap, s, fr.func,
                               st.env))
        if self.finals_pending(fr):
            fr.returns[-1].pending = True
        return None

    def finals_pending(self, fr):
        return False

    def x_Raise(self, s, st, fr):
        try:
            v = self.ev(s.exc, st, fr) if s.exc is not None else \
                st.env.get('\0exc', mk('reraise'))
        except Dead:
            return None
        self.do_raise(v, st, s, fr)
        return None

    def do_raise(self, v, st, node, fr):
        self.event('raise', self.exc_name(v, st), (v,), (), st, node)
        self.sinks[-1].append(Exit('raise', st.path, v, st.heap, node,
                                   fr.func if fr else None, st.env))

    def exc_name(self, v, st):
        if v.op == 'obj' and st.heap.get(v.args[0]) is not None:
            o = st.heap[v.args[0]]
            if o.kind == 'inst':
                return o.cls
        if v.op == 'class':
            return v.args[0]
        if v.op == 'ext':
            return v.args[0]
        if v.op == 'call':
            return v.args[0]
        return tm.show(v, 3)

    def x_Assert(self, s, st, fr):
        try:
            c = self.cond(s.test, st, fr)
        except Dead:
            return None
        v = self.decide(c, st)
        if v is True:
            return st
        b = st.copy()
        self.assume(b, not_(c))
        self.do_raise(mk('ext', 'AssertionError'), b, s, fr)
        if v is False:
            return None
        if not self.assume(st, c):
            return None
        return st

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev_slice(t.slice, st, fr)
                self.event('delitem', None, (b, i), (), st, s)
                if b.op == 'obj':
                    o = st.heap[b.args[0]]
                    if o.kind == 'dict' and isinstance(i, tm.T) and \
                            i in o.entries:
                        st.w(b.args[0]).entries.pop(i)
                    elif o.kind == 'inst':
                        self.dunder(b, '__delitem__', [i], st, s)
                    elif o.kind in ('list', 'bytes'):
                        self.havoc_obj(b.args[0], st, 'del')
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.event('delattr', t.attr, (b,), (), st, s)
        return st

    def x_Assign(self, s, st, fr):
        try:
            v = self.ev(s.value, st, fr)
        except Dead:
            return None
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            try:
                v = self.ev(s.value, st, fr)
            except Dead:
                return None
            self.assign(s.target, v, st, fr)
        return st

    def x_AugAssign(self, s, st, fr):
        op = s.op
        try:
            ld = ast.copy_location(to_load(s.target), s.target)
            cur = self.ev(ld, st, fr)
            v = self.ev(s.value, st, fr)
        except Dead:
            return None
        if isinstance(op, ast.Add) and cur.op == 'obj':
            o = st.heap[cur.args[0]]
            if o.kind in ('list', 'bytes'):
                self.extend_obj(cur.args[0], v, st)
                # attribute/name keeps the same object
                return st
        if isinstance(op, ast.BitOr) and cur.op == 'obj' and \
                st.heap[cur.args[0]].kind == 'set':
            self.extend_obj(cur.args[0], v, st)
            return st
        r = self.binop(op, cur, v, st, s)
        self.assign(s.target, r, st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.event('globalstore', t.id, (v,), (), st, t)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            elts = t.elts
            v = self.simp(v, st)
            items = self.concrete_items(v, st)
            star = [i for i, e in enumerate(elts)
                    if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j, e in enumerate(elts):
                    if j < i:
                        self.assign(e, self.get_item(v, const(j), st), st, fr)
                    elif j == i:
                        after = len(elts) - i - 1
                        self.assign(e.value, self.get_slice(
                            v, const(i), const(-after) if after else NONE,
                            NONE, st), st, fr)
                    else:
                        self.assign(e, self.get_item(
                            v, const(j - len(elts)), st), st, fr)
                return
            if items is not None and len(items) != len(elts):
                self.do_raise(mk('ext', 'ValueError'), st.copy(), t,
                              self.frames[-1] if self.frames else None)
                raise Dead()
            for j, e in enumerate(elts):
                if items is not None and len(items) == len(elts):
                    x = items[j]
                else:
                    x = self.get_item(v, const(j), st)
                self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            try:
                b = self.ev(t.value, st, fr)
            except Dead:
                return
            self.set_attr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            i = self.ev_slice(t.slice, st, fr)
            self.event('setitem', None, (b, i, v), (), st, t)
            if b.op == 'obj':
                o = st.heap[b.args[0]]
                if o.kind == 'dict' and isinstance(i, tm.T):
                    st.w(b.args[0]).entries[i] = v
                elif o.kind == 'inst':
                    self.dunder(b, '__setitem__', [i, v], st, t)
                elif o.kind in ('list', 'bytes'):
                    ps = o.parts
                    if isinstance(i, tm.T) and is_int_const(i) and \
                            all(p[0] == 'e' for p in ps) and \
                            -len(ps) <= cval(i) < len(ps) and \
                            o.kind == 'list':
                        l = list(ps)
                        l[cval(i)] = ('e', v)
                        st.w(b.args[0]).parts = tuple(l)
                    elif o.kind == 'bytes' and \
                            self.set_octet(b.args[0], i, v, st):
                        pass
                    else:
                        self.havoc_obj(b.args[0], st, 'setitem', v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def dunder(self, b, name, args, st, node):
        """Call a special method of an instance; None if it has none."""
        m = self.class_lookup(st.heap[b.args[0]].cls, name)
        if m is None or m.op != 'func' or len(self.stack) >= MAXDEPTH:
            return None
        return self.call(self.bind_attr(m, b, st, node), args, [], st, node)

    def set_octet(self, oid, i, v, st):
        """b[i] = v on a mutable octet string of known size."""
        if not isinstance(i, tm.T) or not is_int_const(i):
            return False
        b = tm.bseq(list(st.heap[oid].parts))
        n = tm.length(b)
        k = cval(i)
        if is_int_const(n):
            if k < 0:
                k += cval(n)
            if not 0 <= k < cval(n):
                return False
        elif k < 0 or self.decide(tm.cmp_('<', i, n), st) is not True:
            return False
        st.w(oid).parts = (
            ('c', tm.slice_(b, tm.ZERO, const(k))), ('b', v),
            ('c', tm.slice_(b, const(k + 1), NONE)))
        return True

    def havoc_obj(self, oid, st, tag, *deps):
        o = st.w(oid)
        snap = self.snapshot(mk('obj', oid), st)
        if o.kind == 'bytes':
            o.parts = (('c', tm.unk(tag, snap, *deps)),)
        else:
            o.parts = (('s', tm.unk(tag, snap, *deps)),)

    def x_If(self, s, st, fr):
        try:
            c = self.cond(s.test, st, fr)
        except Dead:
            return None
        return self.branch(c, st, fr,
                           lambda x: self.exec_block(s.body, x, fr),
                           lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, c, st, fr, fa, fb):
        v = self.decide(c, st)
        if v is True:
            return fa(st)
        if v is False:
            return fb(st)
        base = st.path
        a = st.copy()
        b = st
        bo = State(dict(st.env), dict(st.heap), st.path)
        ra = fa(a) if self.assume(a, c) else None
        rb = fb(bo) if self.assume(bo, not_(c)) else None
        return self.join(c, ra, rb, base)

    def inline_context(self, s, st, fr):
        """Run a with statement whose context manager is a generator of the
        same module by running the generator with the body in the place of
        its yield.  NotImplemented if it is anything else."""
        e = s.items[0].context_expr
        if not isinstance(e, ast.Call) or any(
                isinstance(a, ast.Starred) for a in e.args) or any(
                    k.arg is None for k in e.keywords):
            return NotImplemented
        x = e.func
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return NotImplemented
        try:
            fn = self.ev(e.func, st, fr)
        except Dead:
            return None
        args = []
        if fn.op == 'bound':
            args.append(fn.args[0])
            fn = fn.args[1]
        if fn.op != 'ctxfunc' or fn.args[0].op != 'func':
            return NotImplemented
        f = self.funcs[fn.args[0].args[0]]
        if f.module is not fr.module or f.closure and f.closure != \
                fr.closure or self.qual(f) in self.intr or \
                f.name in self.noinline:
            return NotImplemented
        body = context_body(f.node, s)
        if body is None:
            return NotImplemented
        names, stmts = body
        try:
            for a in e.args:
                args.append(self.ev(a, st, fr))
            kw = [(k.arg, self.ev(k.value, st, fr)) for k in e.keywords]
            env = self.bind(f, args, kw, st, e)
        except Dead:
            return None
        for n, v in env.items():
            st.env[names.get(n, n)] = v
        self.event('with', None, (fn,), (), st, s)
        out = self.exec_block(stmts, st, fr)
        self.event('endwith', None, (), (), st, s)
        return out

    def x_With(self, s, st, fr):
        r = self.inline_context(s, st, fr)
        if r is not NotImplemented:
            return r
        exits = []
        for it in s.items:
            try:
                v = self.ev(it.context_expr, st, fr)
            except Dead:
                return None
            ent = v
            self.event('with', None, (v,), (), st, s)
            if v.op == 'obj' and st.heap[v.args[0]].kind == 'inst':
                cls = st.heap[v.args[0]].cls
                if self.class_lookup(cls, '__enter__') is not None:
                    ent = self.call_method(v, '__enter__', [], [], st, s)
                    exits.append(v)
            elif v.op not in ('obj',):
                ent = mk('enter', v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, st, fr)
        nret = len(fr.returns)
        lb = [(len(l['breaks']), len(l['continues'])) for l in fr.loops]
        pre = st.copy()
        self.trystack = self.trystack + [('with', id(s))]
        self.sinks.append([])
        try:
            out = self.exec_block(s.body, st, fr)
        finally:
            self.trystack = self.trystack[:-1]
            raised = self.sinks.pop()
        none = [NONE, NONE, NONE]
        for v in reversed(exits):
            for x in fr.returns[nret:]:
                xs = State(dict(x.env or {}), dict(x.heap), x.path)
                try:
                    self.call_method(v, '__exit__', none, [], xs, s)
                except Dead:
                    continue
                x.heap = xs.heap
            left = []
            for x in raised:
                xs = State(dict(x.env or pre.env), dict(x.heap), x.path)
                try:
                    q = self.call_method(v, '__exit__', [
                        self.exc_class(x), x.value, tm.unk('traceback')],
                        [], xs, s)
                except Dead:
                    continue
                x.heap = xs.heap
                if q is not None and self.decide(
                        self.truthy(q, xs), xs) is True:
                    if x.env is None or x.owner is not fr.func:
                        xs.env = dict(pre.env)
                    out = xs if out is None else self.join(and_(*[
                        self.snapshot(p, xs) for p in x.path
                        if p not in pre.path]), xs, out, pre.path)
                else:
                    left.append(x)
            raised = left
            for l, (nb, nc) in zip(fr.loops, lb):
                for xs in l['breaks'][nb:] + l['continues'][nc:]:
                    try:
                        self.call_method(v, '__exit__', none, [], xs, s)
                    except Dead:
                        pass
            if out is not None:
                try:
                    self.call_method(v, '__exit__', none, [], out, s)
                except Dead:
                    out = None
        self.sinks[-1].extend(raised)
        self.event('endwith', None, (), (), st, s)
        return out

    def x_Try(self, s, st, fr):
        self.loopid += 1
        tid = self.loopid
        pre = st.copy()
        has_handlers = bool(s.handlers)
        nret = len(fr.returns)
        lb = [(len(l['breaks']), len(l['continues'])) for l in fr.loops]
        self.sinks.append([])
        sink0 = self.sinks[-1]
        ev0 = len(self.events)
        self.trystack = self.trystack + [('try', tid)]
        try:
            out = self.exec_block(s.body, st.copy(), fr)
        finally:
            self.trystack = self.trystack[:-1]
        raised = self.sinks.pop()
        excc = mk('exc', tid)
        handlers_out = []
        escaping = []
        per_handler = [[] for _ in s.handlers]
        for x in raised:
            placed = False
            for i, h in enumerate(s.handlers):
                m = self.exc_match(x, h, fr, pre)
                if m is True:
                    per_handler[i].append(x)
                    placed = True
                    break
                if m is None:
                    per_handler[i].append(x)
            if not placed:
                escaping.append(x)
        conds = self.handler_conds(s, raised, pre, fr)
        results = []
        self.sinks.append([])
        for i, h in enumerate(s.handlers):
            hs = self.handler_state(pre, per_handler[i], out, tid, s, ev0,
                                    conds is not None)
            if conds is not None:
                if not per_handler[i] or not self.assume(hs, conds[i]):
                    results.append(None)
                    continue
                v = mk('caughtexc', NONE if h.type is None else
                       self.ev(h.type, hs, fr))
                if self.explicit_only and len(per_handler[i]) == 1:
                    v = per_handler[i][0].value
                hs.env['\0exc'] = v
                if h.name:
                    v = mk('excval', tid)
                    if len(per_handler[i]) == 1:
                        v = per_handler[i][0].value
                    hs.env[h.name] = v
                results.append(self.exec_block(h.body, hs, fr))
                continue
            self.assume(hs, excc)
            if h.type is not None:
                ht = self.ev(h.type, hs, fr)
                self.assume(hs, mk('caught', tid, ht))
                hs.env['\0exc'] = mk('caughtexc', ht)
            else:
                hs.env['\0exc'] = mk('caughtexc', NONE)
            if h.name:
                v = mk('excval', tid)
                if len(per_handler[i]) == 1:
                    v = per_handler[i][0].value
                hs.env[h.name] = v
            r = self.exec_block(h.body, hs, fr)
            results.append(r)
        hraised = self.sinks.pop()
        if out is not None and s.orelse:
            self.sinks.append([])
            out = self.exec_block(s.orelse, out, fr)
            hraised += self.sinks.pop()
        final_raises = escaping + hraised
        merged = out
        for i, r in enumerate(results):
            if r is None:
                continue
            if merged is None:
                merged = r
            elif conds is not None:
                merged = self.join(conds[i], r, merged, pre.path)
            else:
                merged = self.join(excc, r, merged, pre.path)
        if s.finalbody:
            # run the final block on every way out
            for x in fr.returns[nret:] + final_raises:
                xs = State(dict(x.env or pre.env), dict(x.heap), x.path)
                self.sinks.append([])
                sub = Frame(fr.func, fr.module)
                sub.closure, sub.cls = fr.closure, fr.cls
                sub.localnames = fr.localnames
                r = self.exec_block(s.finalbody, xs, sub)
                more = self.sinks.pop()
                final_raises = final_raises + []
                if r is not None:
                    x.heap = r.heap
            if not self.explicit_only:
                # implicit exception way out
                es = pre.copy()
                if merged is not None:
                    es = self.join(mk('exc', -tid), pre.copy(),
                                   merged.copy(), pre.path)
                self.assume(es, mk('exc', -tid))
                self.sinks.append([])
                sub = Frame(fr.func, fr.module)
                sub.closure, sub.cls = fr.closure, fr.cls
                sub.localnames = fr.localnames
                n = len(self.events)
                r = self.exec_block(s.finalbody, es, sub)
                for e in self.events[n:]:
                    e.trys = e.trys + (('implicit', tid),)
                self.sinks.pop()
                if r is not None:
                    final_raises.append(Exit('raise', r.path,
                                             mk('implicit_exc', tid), r.heap,
                                             s, fr.func, r.env))
            for l, (nb, nc) in zip(fr.loops, lb):
                for k, n in (('breaks', nb), ('continues', nc)):
                    for xs in l[k][n:]:
                        sub = Frame(fr.func, fr.module)
                        sub.closure, sub.cls = fr.closure, fr.cls
                        sub.localnames = fr.localnames
                        r = self.exec_block(s.finalbody, xs.copy(), sub)
                        if r is not None:
                            xs.heap, xs.env = r.heap, r.env
            if merged is not None:
                merged = self.exec_block(s.finalbody, merged, fr)
        self.sinks[-1].extend(final_raises)
        return merged

    x_TryStar = x_Try

    def handler_conds(self, s, raised, pre, fr):
        """When each handler is entered, or None.  Exceptions the package
        defines come from its own raise statements only."""
        if not s.handlers:
            return None
        for h in s.handlers if not self.explicit_only else ():
            if h.type is None:
                return None
            ht = self.ev(h.type, pre.copy(), fr)
            for t in (ht.args if ht.op == 'tuple' else [ht]):
                if not isinstance(t, tm.T) or t.op != 'class':
                    return None
        out = [FALSE] * len(s.handlers)
        for x in raised:
            for i, h in enumerate(s.handlers):
                m = self.exc_match(x, h, fr, pre)
                if m is None:
                    return None
                if m:
                    out[i] = or_(out[i], and_(*[
                        self.snapshot(p, State(pre.env, x.heap, x.path))
                        for p in x.path if p not in pre.path]))
                    break
        return out

    def exc_class(self, x):
        v = x.value
        if v.op == 'obj' and x.heap.get(v.args[0]) is not None and \
                x.heap[v.args[0]].kind == 'inst':
            return mk('class', x.heap[v.args[0]].cls)
        if v.op in ('class', 'ext'):
            return v
        if v.op == 'call' and v.args[0] in EXC_PARENT:
            return mk('ext', v.args[0])
        return mk('ext', 'BaseException')

    def handler_state(self, pre, raised, out, tid, s, ev0, exact=False):
        """State on entry of a handler: anything between pre and end."""
        hs = pre.copy()
        if exact and raised:
            # entered from the known raises only
            conds = [and_(*[self.snapshot(p, State(pre.env, x.heap, x.path))
                            for p in x.path if p not in pre.path])
                     for x in raised]
            heap = raised[0].heap
            for c, x in list(zip(conds, raised))[1:]:
                heap = self.merge_heap(c, x.heap, heap)
            hs.heap = dict(heap)
            names = assigned_names(s.body)
            if all(x.owner is self.frames[-1].func and x.env is not None
                   for x in raised):
                for n in names:
                    v = raised[0].env.get(n)
                    for c, x in list(zip(conds, raised))[1:]:
                        w = x.env.get(n)
                        if v is not w:
                            v = phi(c, w or mk('unbound', n),
                                    v or mk('unbound', n))
                    hs.env.pop(n, None)
                    if v is not None:
                        hs.env[n] = v
            else:
                for n in names:
                    vs = [pre.env.get(n)] + [
                        x.env.get(n) for x in raised if x.env is not None
                        and x.owner is self.frames[-1].func]
                    if out is not None:
                        vs.append(out.env.get(n))
                    vs = [v if v is not None else mk('unbound', n)
                          for v in vs]
                    v = vs[0]
                    for i, w in enumerate(vs[1:]):
                        v = phi(mk('excat', tid, i), w, v)
                    hs.env[n] = v
            hs.path = pre.path
            return hs
        states = [State(dict(x.env or {}), x.heap, x.path) for x in raised
                  if x.owner is (self.frames[-1].func) and
                  x.env is not None]
        # names assigned in the body may have any intermediate value
        names = assigned_names(s.body)
        for n in names:
            vs = [pre.env.get(n)]
            if out is not None:
                vs.append(out.env.get(n))
            for x in states:
                vs.append(x.env.get(n))
            vs = [v if v is not None else mk('unbound', n) for v in vs]
            v = vs[0]
            for i, w in enumerate(vs[1:]):
                v = phi(mk('excat', tid, i), w, v)
            hs.env[n] = v
        heaps = [x.heap for x in raised] + ([out.heap] if out is not None
                                            else [])
        heap = pre.heap
        for i, h in enumerate(heaps):
            heap = self.merge_heap(mk('excat', tid, i), h, heap)
        hs.heap = heap if heap is not pre.heap else dict(pre.heap)
        hs.path = pre.path
        return hs

    def exc_match(self, x, h, fr, st):
        """True / False / None (maybe) whether handler h catches exit x."""
        if h.type is None:
            return True
        ht = self.ev(h.type, st.copy(), fr)
        types = list(ht.args) if ht.op == 'tuple' else [ht]
        v = x.value
        names = None
        if v.op == 'obj' and x.heap.get(v.args[0]) is not None and \
                x.heap[v.args[0]].kind == 'inst':
            names = self.exc_names(x.heap[v.args[0]].cls)
        elif v.op == 'class':
            names = self.exc_names(v.args[0])
        elif v.op == 'ext':
            names = EXC_PARENT.get(v.args[0])
        elif v.op == 'call':
            names = EXC_PARENT.get(v.args[0])
        if names is None:
            return None
        for t in types:
            n = t.args[0] if t.op in ('class', 'ext') else None
            if n is None:
                return None
            if n in names:
                return True
        return False

    def exc_names(self, cls):
        out = []
        for n in self.mro(cls):
            out.append(n)
            if n in EXC_PARENT:
                out.extend(EXC_PARENT[n])
        return out

    # ------------------------------------------------------------- loops
    def x_For(self, s, st, fr):
        try:
            it = self.ev(s.iter, st, fr)
        except Dead:
            return None
        it = self.simp(it, st)
        if it.op == 'obj' and it.args[0] in self.iters and \
                isinstance(s.iter, ast.Name):
            # what a loop leaves of it is not followed
            raise Budget('iterator in a loop')
        nx = self.iterator_of(it, st, s)
        if nx is not None:
            return self.unroll(s, nx, st, fr)
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= MAXUNROLL:
            return self.unroll(s, [(x, TRUE) for x in items], st, fr)
        items = self.guarded_items(it, st)
        if items is not None and len(items) <= 8:
            return self.unroll(s, items, st, fr)
        over, elem = self.iter_elem(it, st)
        return self.widen_loop(s, st, fr, over=over, elem=elem)

    x_AsyncFor = x_For

    def iterator_of(self, it, st, node):
        """Lazy elements of an object with a __next__ method."""
        if it.op != 'obj' or st.heap[it.args[0]].kind != 'inst':
            return None
        cls = st.heap[it.args[0]].cls
        if self.class_lookup(cls, '__next__') is None:
            return None

        def step(now):
            self.sinks.append([])
            try:
                v = self.call_method(it, '__next__', [], [], now, node)
            except Dead:
                v = None
            raised = self.sinks.pop()
            other = [x for x in raised
                     if self.exc_name(x.value, now) != 'StopIteration']
            self.sinks[-1].extend(other)
            if len(other) < len(raised) and v is not None:
                raise Budget('end of iteration not known')
            if v is None and len(other) == len(raised):
                raise Dead()
            if v is None:
                # what the last call did before ending counts
                now.heap = dict(raised[-1].heap)
            return v

        def steps():
            for i in range(MAXUNROLL):
                yield step, TRUE
            raise Budget('iterator')
        return steps()

    def iter_elem(self, it, st):
        """(over, element) for symbolic iteration."""
        if it.op == 'obj':
            o = st.heap[it.args[0]]
            if o.kind == 'dict':
                over = mk('keys', self.snapshot(it, st))
                return over, mk('each', over, self.loop_depth(over))
            if o.kind in ('list', 'set', 'bytes'):
                ps = o.parts
                if len(ps) == 1 and ps[0][0] == 'rep' and \
                        len(ps[0][2]) == 1 and ps[0][2][0][0] == 'e':
                    return ps[0][1], ps[0][2][0][1]
                if len(ps) == 1 and ps[0][0] in ('s', 'c'):
                    over = ps[0][1]
                    return over, mk('each', over, self.loop_depth(over))
            snap = self.snapshot(it, st)
            return snap, mk('each', snap, self.loop_depth(snap))
        if it.op == 'call' and it.args[0] == 'enumerate':
            over = it.args[1][0]
            o2, e2 = self.iter_elem(over, st)
            return o2, mk('tuple', mk('idx', o2), e2)
        if it.op == 'call' and it.args[0] == 'range':
            a = it.args[1]
            if len(a) == 1 and a[0].op == 'len':
                over = a[0].args[0]
                return over, mk('idx', over)
            return it, mk('idx', it)
        if it.op == 'listv' and len(it.args) == 1 and it.args[0][0] == 's':
            it = it.args[0][1]
        return it, mk('each', it, self.loop_depth(it))

    def loop_depth(self, over):
        return sum(1 for l in self.loopstack if l.get('over') is over)

    def unroll(self, s, itemlists, st, fr):
        base = st.path
        pending = []     # (state) leaving by break
        cur = st
        for i, (x, g) in enumerate(itemlists):
            if callable(x):
                try:
                    x = x(cur)
                except Dead:
                    cur = None
                    break
                if x is None:
                    break
            loop = {'breaks': [], 'continues': [], 'id': None, 'unrolled': 1}
            skip = None
            d = self.decide(g, cur)
            if d is False:
                continue
            if d is None:
                skip = cur.copy()
                if not self.assume(skip, not_(g)):
                    skip = None
                inside = cur.copy()
                if not self.assume(inside, g):
                    cur = skip
                    if cur is None:
                        break
                    continue
                before, cur = cur.path, inside
            fr.loops.append(loop)
            try:
                self.assign(s.target, x, cur, fr)
                end = self.exec_block(s.body, cur, fr)
            finally:
                fr.loops.pop()
            for b in loop['continues']:
                end = b if end is None else self.join(
                    self.diff_cond(b, base), b, end, base)
            pending.extend(loop['breaks'])
            cur = end
            if skip is not None:
                cur = skip if end is None else self.join(
                    g, end, skip, before)
            if cur is None:
                break
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur, fr)
        for b in reversed(pending):
            cur = b if cur is None else self.join(
                self.diff_cond(b, base), b, cur, base)
        return cur

    def diff_cond(self, st, base):
        return and_(*[p for p in st.path if p not in base])

    def x_While(self, s, st, fr):
        # concrete unrolling while the condition stays decided
        n = 0
        base = st.path
        while True:
            probe = st
            try:
                c = self.cond(s.test, probe, fr)
            except Dead:
                return None
            v = self.decide(c, probe)
            if v is False:
                if s.orelse:
                    return self.exec_block(s.orelse, probe, fr)
                return probe
            if v is True and n < 64 and tm.is_const(c) and not (
                    isinstance(s.test, ast.Constant)):
                loop = {'breaks': [], 'continues': [], 'id': None,
                        'unrolled': 1}
                save = st.copy()
                fr.loops.append(loop)
                try:
                    end = self.exec_block(s.body, st, fr)
                finally:
                    fr.loops.pop()
                if loop['breaks'] or loop['continues']:
                    # undecided control inside: widen from here instead
                    for b in loop['continues']:
                        end = b if end is None else self.join(
                            self.diff_cond(b, base), b, end, base)
                    if loop['breaks']:
                        out = None
                        rest = None
                        if end is not None:
                            rest = self.x_While(s, end, fr)
                        for b in loop['breaks']:
                            rest = b if rest is None else self.join(
                                self.diff_cond(b, base), b, rest, base)
                        return rest
                if end is None:
                    return None
                st = end
                n += 1
                continue
            if v is True and n < 64 and isinstance(s.test, ast.Constant):
                # while True: follow it as long as every way out is decided
                mark = (len(self.events), len(fr.returns),
                        len(self.sinks[-1]), len(self.notes), self.loopid)
                outer = [(len(l['breaks']), len(l['continues']))
                         for l in fr.loops]
                loop = {'breaks': [], 'continues': [], 'id': None,
                        'unrolled': 1}
                fr.loops.append(loop)
                try:
                    end = self.exec_block(s.body, st.copy(), fr)
                finally:
                    fr.loops.pop()
                ways = loop['continues'] + ([end] if end is not None else [])
                left = (len(fr.returns) > mark[1] or
                        any((len(l['breaks']), len(l['continues'])) != o
                            for l, o in zip(fr.loops, outer)))
                if not left and not ways and loop['breaks']:
                    out = None
                    for b in loop['breaks']:
                        out = b if out is None else self.join(
                            self.diff_cond(b, base), b, out, base)
                    return out
                if not left and len(ways) == 1 and not loop['breaks'] and \
                        self.loopid == mark[4]:
                    st = ways[0]
                    n += 1
                    continue
                del self.events[mark[0]:]
                del fr.returns[mark[1]:]
                del self.sinks[-1][mark[2]:]
                for l, (b, c) in zip(fr.loops, outer):
                    del l['breaks'][b:]
                    del l['continues'][c:]
            break
        return self.widen_loop(s, st, fr)

    def widen_loop(self, s, st, fr, over=None, elem=None):
        self.loopid += 1
        lid = self.loopid
        is_for = isinstance(s, (ast.For, ast.AsyncFor))
        if lid > 5000:
            raise Budget('too many loops')
        # trial pass to find what changes
        mark = (len(self.events), len(fr.returns), len(self.sinks[-1]),
                len(self.notes), self.loopid)
        saved_outer = [(len(l['breaks']), len(l['continues']))
                       for l in fr.loops]
        trial = st.copy()
        info = {'breaks': [], 'continues': [], 'id': lid, 'over': over,
                'elem': elem}
        ends = self.loop_body(s, trial, fr, info, over, elem, is_for)
        changed_env, changed_obj = {}, {}
        for e in ends:
            for k, v in e.env.items():
                if st.env.get(k) is not v:
                    changed_env[k] = 1
            for k, o in e.heap.items():
                if k in st.heap and not st.heap[k].same(o):
                    changed_obj.setdefault(k, []).append(o)
        trial_ends = ends
        # induction variable over an indexed collection
        alias = None
        if not is_for:
            alias = self.find_index(s, st, trial_ends, changed_env, fr)
        del self.events[mark[0]:]
        del fr.returns[mark[1]:]
        del self.sinks[-1][mark[2]:]
        for l, (b, c) in zip(fr.loops, saved_outer):
            del l['breaks'][b:]
            del l['continues'][c:]
        # widened state
        for attempt in range(3):
            wst = st.copy()
            lvars = {}
            for k in changed_env:
                init = st.env.get(k)
                ty = tm.type_of(init) if init is not None else None
                if init is None:
                    # not bound before the loop
                    if k in wst.env:
                        del wst.env[k]
                    lvars[k] = mk('loopvar', lid, k, None)
                    wst.env[k] = mk('loopvar', lid, k, None)
                    continue
                lv = mk('loopvar', lid, k, ty if ty != 'none' else None)
                if init.op == 'obj':
                    ends_same = all(e.env.get(k) is init for e in trial_ends)
                lvars[k] = lv
                wst.env[k] = lv
                if alias and alias[0] == k:
                    self.index_alias[lv] = alias[1]
            lobjs = {}
            for k, variants in changed_obj.items():
                o = wst.w(k)
                if o.kind in ('inst',):
                    for a in set().union(*[set(v.attrs) for v in variants]):
                        ini = st.heap[k].attrs.get(a)
                        if any(v.attrs.get(a) is not ini for v in variants):
                            ty = tm.type_of(ini) if ini is not None else None
                            o.attrs[a] = mk('loopvar', lid,
                                            '%d.%s' % (k, a), ty)
                elif o.kind in ('list', 'set', 'bytes', 'hash'):
                    if all(v.parts[:len(st.heap[k].parts)] ==
                           st.heap[k].parts and (o.kind != 'hash' or
                                                 v.ctor is o.ctor)
                           for v in variants):
                        # append-only: keep prefix, mark symbolic middle
                        o.parts = st.heap[k].parts + (
                            ('lp', lid, k),)
                        lobjs[k] = ('append', st.heap[k].parts)
                    else:
                        o.parts = (('lp', lid, k),)
                        lobjs[k] = ('havoc', None)
                elif o.kind == 'dict':
                    o.more = mk('loopvar', lid, '%d' % k, None)
                    lobjs[k] = ('dict', None)
                elif o.kind == 'ext':
                    o.log = o.log + (('loop', lid),)
                    lobjs[k] = ('ext', None)
                elif o.kind == 'stream':
                    o.attrs['pos'] = mk('loopvar', lid, '%d.pos' % k, 'int')
            info = {'breaks': [], 'continues': [], 'id': lid, 'over': over,
                    'elem': elem}
            if alias:
                info['over'] = alias[1]
                info['elem'] = mk('each', alias[1],
                                  self.loop_depth(alias[1]))
            m2 = (len(self.events), len(fr.returns), len(self.sinks[-1]),
                  [(len(l['breaks']), len(l['continues']))
                   for l in fr.loops])
            start = wst.copy()
            ends = self.loop_body(s, wst, fr, info, over, elem, is_for)
            # fixpoint check: anything else changed?
            more = False
            for e in ends:
                for k, v in e.env.items():
                    if start.env.get(k) is not v and k not in changed_env:
                        changed_env[k] = 1
                        more = True
                for k, o in e.heap.items():
                    if k in start.heap and not start.heap[k].same(o) and \
                            k not in changed_obj:
                        changed_obj.setdefault(k, []).append(o)
                        more = True
                    elif k in start.heap and k in lobjs and \
                            lobjs[k][0] == 'append' and \
                            o.parts[:len(start.heap[k].parts)] != \
                            start.heap[k].parts:
                        changed_obj[k] = [o]
                        st_parts = st.heap[k].parts
                        more = True
                        changed_obj[k] = [o]
                        lobjs[k] = ('havoc', None)
            if not more or attempt == 2:
                break
            del self.events[m2[0]:]
            del fr.returns[m2[1]:]
            del self.sinks[-1][m2[2]:]
            for l, (b, c) in zip(fr.loops, m2[3]):
                del l['breaks'][b:]
                del l['continues'][c:]
        # loop summary
        ocond = None
        if not is_for and info.get('cond') is not None:
            ocond = info['cond']
        rec = {'id': lid, 'over': info['over'], 'elem': info['elem'],
               'cond': ocond, 'init': {}, 'step': {}, 'node': s,
               'breaks': len(info['breaks'])}
        body_end = None
        for e in ends:
            body_end = e if body_end is None else self.join(
                self.diff_cond(e, start.path), e, body_end, start.path)
        for k in changed_env:
            if k in st.env:
                rec['init'][k] = st.env[k]
            if body_end is not None:
                rec['step'][k] = body_end.env.get(k)
        self.loopinfo[lid] = rec
        over_t = info['over']
        if over_t is None:
            over_t = mk('loop', lid)
        # state after the loop: from the loop head (cond false) or breaks
        after = start.copy()
        after.path = st.path
        for k in changed_env:
            init = st.env.get(k)
            step = rec['step'].get(k)
            if init is None:
                last = step if step is not None else mk('unbound', k)
                after.env[k] = mk('loopout', lid, k, tm.type_of(last),
                                  mk('unbound', k), last)
                continue
            lv = start.env.get(k)
            if step is lv or step is None:
                after.env[k] = init if step is None else init
            else:
                after.env[k] = mk('loopout', lid, k, tm.type_of(lv) if
                                  lv is not None else None, init, step)
            # loop-invariant overwrite: every iteration stores the same
        for k in list(changed_obj):
            o = after.w(k)
            be = body_end.heap.get(k) if body_end is not None else None
            if o.kind == 'inst' or o.kind == 'stream':
                for a in list(o.attrs):
                    lv = o.attrs[a]
                    if isinstance(lv, tm.T) and lv.op == 'loopvar' and \
                            lv.args[0] == lid:
                        ini = st.heap[k].attrs.get(a)
                        if ini is None:
                            ini = mk('unbound', a)
                        stp = be.attrs.get(a) if be is not None else None
                        o.attrs[a] = mk('loopout', lid, '%d.%s' % (k, a),
                                        tm.type_of(ini), ini,
                                        stp if stp is not None else ini)
            elif o.kind in ('list', 'set', 'bytes', 'hash'):
                pre = lobjs.get(k, ('havoc', None))
                n = len(start.heap[k].parts)
                if be is not None and pre[0] == 'append' and \
                        be.parts[:n] == start.heap[k].parts:
                    added = be.parts[n:]
                    o.parts = pre[1] + ((('rep', over_t, tuple(added)),)
                                        if added else ())
                elif be is not None:
                    bp = be.parts
                    t = tm.unk('loopobj%d' % lid,
                               *[x for x in tm.walk_tuple(bp)][:20])
                    o.parts = ((('c' if o.kind in ('bytes', 'hash')
                                 else 's'), t),)
                else:
                    o.parts = st.heap[k].parts
        post_facts = []
        # facts that every completed iteration establishes
        if body_end is not None and not info['breaks']:
            fs = [p for p in body_end.path
                  if p not in start.path and p is not ocond
                  and not (ocond is not None and ocond.op == 'and'
                           and p in ocond.args)]
            if fs:
                post_facts.append(mk('forall', over_t, and_(*fs)))
        result = after
        for f in post_facts:
            self.assume(result, f)
        if ocond is not None:
            nc = not_(self.out_subst(ocond, start, after))
            if tm.truth(nc) is not False:
                self.assume(result, nc)
            if ocond is TRUE:
                result = None
        if result is not None and s.orelse:
            result = self.exec_block(s.orelse, result, fr)
        for b in info['breaks']:
            bc = self.diff_cond(b, start.path)
            # values at a break refer to the breaking iteration
            bs = State(dict(b.env), dict(b.heap), b.path)
            for k, o in list(bs.heap.items()):
                if k in lobjs and o.kind in ('list', 'set', 'bytes', 'hash'):
                    n = len(start.heap[k].parts)
                    o = o.copy()
                    if lobjs[k][0] == 'append' and \
                            o.parts[:n] == start.heap[k].parts and \
                            body_end is not None:
                        added = body_end.heap[k].parts[n:]
                        o.parts = lobjs[k][1] + ((
                            ('rep', over_t, tuple(added)),) if added else ()
                        ) + o.parts[n:]
                    elif lobjs[k][0] == 'append' and \
                            o.parts[:n] == start.heap[k].parts:
                        o.parts = lobjs[k][1] + o.parts[n:]
                    bs.heap[k] = o
            if result is None:
                result = bs
            else:
                ex = mk('exists', bc) if bc is not TRUE else mk(
                    'broke', lid)
                result = self.join(ex, bs, result, st.path)
        if result is not None and not info['breaks']:
            pass
        elif result is not None and over is not None and False:
            result.path = st.path
        return result

    def out_subst(self, c, start, after):
        """Loop condition as seen after the loop."""
        m = {}
        for k, v in start.env.items():
            if v.op == 'loopvar' and after.env.get(k) is not None and \
                    after.env[k] is not v:
                m[v] = after.env[k]
        if not m:
            return c
        return tm.rewrite(c, lambda t: m.get(t))

    def find_index(self, s, st, ends, changed, fr):
        """while i < len(xs) with i starting at 0 and stepping by one."""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        for k in changed:
            init = st.env.get(k)
            if init is None or not is_int_const(init) or cval(init) != 0:
                continue
            if not ends or not all(e.env.get(k) is not None and
                                   is_int_const(e.env[k]) and
                                   cval(e.env[k]) == 1 for e in ends):
                continue
            # condition evaluated with i symbolic
            probe = st.copy()
            lv = tm.sym('\0i', 'int')
            probe.env[k] = lv
            try:
                c = self.cond(t, probe, fr)
            except Dead:
                return None
            for s_ in tm.subterms(c):
                if s_.op == 'len':
                    want = cmp_('<', lv, s_)
                    if want is c:
                        return k, s_.args[0]
        return None

    def loop_body(self, s, st, fr, info, over, elem, is_for):
        """Execute one abstract iteration; returns end states."""
        self.loopstack.append(info)
        fr.loops.append(info)
        info['breaks'] = []
        info['continues'] = []
        try:
            if is_for:
                self.assign(s.target, elem, st, fr)
                info['cond'] = None
            else:
                try:
                    c = self.cond(s.test, st, fr)
                except Dead:
                    return []
                info['cond'] = c
                if not self.assume(st, c):
                    return []
            end = self.exec_block(s.body, st, fr)
        finally:
            fr.loops.pop()
            self.loopstack.pop()
        ends = ([end] if end is not None else []) + info['continues']
        return ends

    def x_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['breaks'].append(st)
        return None

    def x_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['continues'].append(st)
        return None

    # --------------------------------------------------------- expressions
    def cond(self, e, st, fr):
        return bool_(self.cond_raw(e, st, fr))

    def cond_raw(self, e, st, fr):
        v = self.ev(e, st, fr)
        return self.truthy(v, st)

    def truthy(self, v, st):
        v = self.simp(v, st)
        if v.op == 'obj':
            o = st.heap[v.args[0]]
            if o.kind in ('list', 'set'):
                if not o.parts:
                    return FALSE
                if any(p[0] == 'e' for p in o.parts):
                    return TRUE
                if len(o.parts) == 1 and o.parts[0][0] == 's':
                    return bool_(o.parts[0][1])
                c = self.holds_any(o.parts)
                if c is not None:
                    return c
                return mk('bool', self.snapshot(v, st))
            if o.kind == 'bytes':
                b = tm.bseq(list(o.parts))
                t = tm.truth(b)
                return const(t) if t is not None else tm.bool_(b)
            if o.kind == 'dict':
                if o.entries and o.more is None:
                    return TRUE
                if not o.entries and o.more is None:
                    return FALSE
                return mk('bool', self.snapshot(v, st))
            if o.kind == 'inst':
                for m in ('__bool__', '__nonzero__', '__len__'):
                    if self.class_lookup(o.cls, m) is not None:
                        return mk('bool', v)
            return TRUE
        if v.op == 'phi':
            return tm.cond_phi(v.args[0], self.truthy(v.args[1], st),
                               self.truthy(v.args[2], st))
        if v.op in ('len',):
            return cmp_('>=', v, const(1))
        if v.op == 'dt':
            return TRUE
        if v.op == 'td':
            return cmp_('!=', v.args[0], ZERO)
        if v.op == 'setand' and len(v.args) == 2 and all(
                x.op == 'tuple' for x in v.args):
            return or_(*[cmp_('==', x, y) for x in v.args[0].args
                         for y in v.args[1].args])
        return bool_(v)

    def intersect(self, a, b, st, node):
        """a & b for sets: exact where every membership is decided."""
        xs, ys = self.concrete_items(a, st), self.concrete_items(b, st)
        if xs is None or ys is None:
            return mk('setand', self.snapshot(a, st), self.snapshot(b, st))
        ms = [or_(*[self.equal(x, y, st, node) for y in ys]) for x in xs]
        if all(is_const(m) for m in ms):
            t, o = self.new_obj(st, 'set')
            o.parts = tuple(('e', x) for x, m in zip(xs, ms)
                            if m is TRUE)
            return t
        return mk('setand', mk('tuple', *[self.snapshot(x, st) for x in xs]),
                  mk('tuple', *[self.snapshot(y, st) for y in ys]))

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps or (
                self.steps & 1023 == 0 and time.time() > self.deadline):
            raise Budget('analysis budget exceeded')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('unsupported expression ' + type(e).__name__, e)
            return tm.unk('expr:' + type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return mk('ext', 'Ellipsis')
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def lookup(self, n, st, fr, node=None):
        v = st.env.get(n)
        if v is not None:
            return self.delazy(v, st)
        if n in fr.localnames and n not in fr.globals_decl:
            self.event('unbound', n, (), (), st, node)
            return mk('unbound', n)
        for env in fr.closure:
            if n in env:
                return self.delazy(env[n], st)
        menv = self.mod_env(fr.module.name)
        if n in menv:
            for k, v in self.modheap.items():
                if k not in st.heap:
                    st.heap[k] = v
            return self.delazy(menv[n], st)
        if n in BUILTINS:
            return mk('ext', n)
        self.event('unresolved', n, (), (), st, node)
        if n in PY2_ONLY:
            self.do_raise(mk('ext', 'NameError'), st.copy(), node, fr)
            raise Dead()
        return mk('ext', n)

    def delazy(self, v, st):
        if v.op == 'lazy':
            r = self.module_attr(v.args[0], v.args[1], st)
            if r is not None:
                return r
        return v

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.get_attr(b, e.attr, st, e)

    def get_attr(self, b, name, st, node=None, default=None):
        b = self.simp(b, st)
        op = b.op
        if op == 'mod':
            r = self.module_attr(b.args[0], name, st)
            if r is None:
                self.event('noattr', name, (b,), (), st, node)
                return mk('ext', b.args[0] + '.' + name)
            return r
        if op == 'ext':
            full = b.args[0] + '.' + name
            if full in self.prog.modules and full not in OPAQUE:
                return mk('mod', full)
            return self.ext_attr(b.args[0], name)
        if op == 'class':
            if name == '__name__':
                return const(b.args[0].split(':')[1].split('.')[-1])
            if name == '__class__':
                return mk('ext', 'type')
            v = self.class_lookup(b.args[0], name)
            if v is None:
                if default is not None:
                    return default
                return mk('attr', b, name)
            return self.bind_class_attr(v, b)
        if op == 'super':
            cls, selfv = b.args
            scls = None
            if selfv.op == 'obj' and st.heap[selfv.args[0]].kind == 'inst':
                scls = st.heap[selfv.args[0]].cls
            elif selfv.op == 'class':
                scls = selfv.args[0]
            if scls is not None:
                v = self.class_lookup(scls, name, after=cls)
                if v is not None:
                    return self.bind_attr(v, selfv, st, node)
                return mk('bound_ext', selfv, 'super.' + name)
            return mk('attr', b, name)
        if op == 'obj':
            return self.obj_attr(b, name, st, node, default)
        if b is NONE and default is None and not hasattr(None, name):
            self.no_attribute(st, node)
            raise Dead()
        if op == 'phi' and default is None and not hasattr(None, name) and \
                (b.args[1] is NONE) != (b.args[2] is NONE):
            one = b.args[1] is NONE
            c = b.args[0] if one else not_(b.args[0])
            s2 = st.copy()
            if self.assume(s2, c):
                self.no_attribute(s2, node)
            if not self.assume(st, not_(c)):
                raise Dead()
            return self.get_attr(b.args[2] if one else b.args[1], name, st,
                                 node, default)
        if op == 'phi':
            a1 = self.get_attr_under(b.args[0], b.args[1], name, st, node,
                                     default)
            a2 = self.get_attr_under(not_(b.args[0]), b.args[2], name, st,
                                     node, default)
            return phi(b.args[0], a1, a2)
        if op == 'call' and b.args[0] in PK_FIELDS:
            r = (pk_fields(b) or {}).get(name)
            if r is not None:
                return r
        if op == 'tuple':
            r = url_parts(b)
            if r is not None and name in URL_FIELDS + r._fields:
                try:
                    return const(getattr(r, name))
                except ValueError:
                    self.do_raise(mk('ext', 'ValueError'), st.copy(), node,
                                  self.frames[-1] if self.frames else None)
                    raise Dead()
        if op == 'call' and name == 'pattern' and \
                b.args[0] == 're.compile':
            return b.args[1][0]
        if op == 'td' and name == 'days':
            return tm.floordiv(b.args[0], const(86400))
        if op == 'td' and name == 'seconds':
            return tm.mod(b.args[0], const(86400))
        if op == 'prop':
            return mk('propattr', b, name)
        if op == 'func' and name == '__func__':
            return b
        if op == 'static' and name == '__func__':
            return b.args[0]
        if op == 'static':
            return self.get_attr(b.args[0], name, st, node)
        if op == 'each' or op == 'item' or op == 'attr' or op == 'sym' or \
                op == 'call' or op == 'mcall':
            ty = self.obj_types.get(b) if hasattr(self, 'obj_types') else None
            if ty is not None:
                r = self.typed_attr(b, ty, name, st, node)
                if r is not None:
                    return r
        return mk('attr', b, name)

    def no_attribute(self, st, node):
        self.do_raise(mk('ext', 'AttributeError'), st.copy(), node,
                      self.frames[-1] if self.frames else None)

    def typed_attr(self, b, ty, name, st, node):
        return None

    def get_attr_under(self, c, v, name, st, node, default):
        v_ = self.decide(c, st)
        if v_ is False:
            return mk('dead')
        save = st.path
        s2 = State(st.env, st.heap, st.path)
        self.assume(s2, c)
        r = self.get_attr(v, name, s2, node, default)
        st.heap = s2.heap
        return r

    def bind_class_attr(self, v, cls):
        if v.op == 'classm':
            return mk('bound', cls, v.args[0])
        if v.op == 'static':
            return v.args[0]
        return v

    def bind_attr(self, v, selfv, st, node):
        if v.op == 'func':
            if selfv.op == 'class':
                return v
            return mk('bound', selfv, v)
        if v.op == 'classm':
            c = selfv
            if selfv.op == 'obj':
                c = mk('class', st.heap[selfv.args[0]].cls)
            return mk('bound', c, v.args[0])
        if v.op == 'static':
            return v.args[0]
        if v.op == 'prop':
            return self.call_prop(v, selfv, st, node)
        if v.op == 'ctxfunc':
            return mk('bound', selfv, v)
        return v

    def call_prop(self, v, selfv, st, node):
        if v.args[0].op in ('func', 'bound'):
            return self.call(v.args[0], [selfv], [], st, node)
        return tm.unk('prop', selfv)

    def obj_attr(self, b, name, st, node, default=None):
        o = st.heap[b.args[0]]
        if o.kind == 'inst':
            if name == '__class__':
                return mk('class', o.cls)
            if name == '__dict__':
                return tm.unk('dict', b)
            cv = self.class_lookup(o.cls, name)
            if cv is not None and cv.op == 'prop':
                return self.call_prop(cv, b, st, node)
            if name in o.attrs:
                v = o.attrs[name]
                if v.op == 'unbound' or v.op in ('phi', 'loopout') and \
                        self.maybe_unset(v, name) is not FALSE:
                    return self.unset_attr(v, cv, b, name, st, node, default)
                return v
            if cv is not None:
                if o.open and cv.op not in ('func', 'classm', 'static',
                                            'ctxfunc', 'class') and \
                        name in self.self_assigned(o.cls):
                    ty = (o.more or {}).get(name)
                    return mk('attr', o.root, name, ty) if ty else \
                        mk('attr', o.root, name)
                return self.bind_attr(cv, b, st, node)
            if o.open:
                ty = (o.more or {}).get(name)
                if isinstance(ty, tm.T):
                    return ty
                return mk('attr', o.root, name, ty) if ty else \
                    mk('attr', o.root, name)
            ga = self.class_lookup(o.cls, '__getattr__')
            if ga is not None:
                return self.call(self.bind_attr(ga, b, st, node),
                                 [const(name)], [], st, node)
            if default is not None:
                return default
            if any(n not in self.classes and n != 'object' for n in
                   self.mro(o.cls)):
                return mk('attr', b, name)
            self.event('noattr', name, (b, const(o.cls)), (), st, node)
            if name[:2] == '__' or not o.attrs:
                return mk('attr', b, name)      # made on another path only
            self.no_attribute(st, node)
            raise Dead()
        if o.kind == 'ext' and o.ctor.op == 'call' and default is None:
            m = EXT_METHODS.get(o.ctor.args[0])
            if m is not None and name not in m and name[:1] != '_':
                self.no_attribute(st, node)
                raise Dead()
        if o.kind == 'ext' or o.kind == 'hash' or o.kind == 'stream':
            return mk('extmeth', b, name)
        return mk('extmeth', b, name)

    def maybe_unset(self, v, name):
        """When an instance attribute set on some paths only is not set."""
        if v.op == 'phi':
            a = self.maybe_unset(v.args[1], name)
            b = self.maybe_unset(v.args[2], name)
            if a is FALSE and b is FALSE:
                return FALSE
            return or_(and_(v.args[0], a), and_(not_(v.args[0]), b))
        if v.op == 'loopout' and v.args[3].op == 'unbound':
            return TRUE
        return TRUE if v is mk('unbound', name) else FALSE

    def unset_attr(self, v, cv, b, name, st, node, default):
        other = default
        if cv is not None:
            other = self.bind_attr(cv, b, st, node)
        u = mk('unbound', name)

        def put(x, new):
            if x.op == 'phi':
                return phi(x.args[0], put(x.args[1], new),
                           put(x.args[2], new))
            if x.op == 'loopout':
                return mk('loopout', *[new if y is u else y for y in x.args])
            return new if x is u else x
        if other is not None:
            return put(v, other)
        if self.contains_loopout(v):
            return v
        c = self.maybe_unset(v, name)
        s2 = st.copy()
        if self.assume(s2, c):
            self.no_attribute(s2, node)
        if not self.assume(st, not_(c)):
            raise Dead()
        return self.simp(v, st)

    @staticmethod
    def contains_loopout(v):
        while v.op == 'phi':
            if Interp.contains_loopout(v.args[1]):
                return True
            v = v.args[2]
        return v.op == 'loopout'

    def set_attr(self, b, name, v, st, node):
        b = self.simp(b, st)
        self.event('store', name, (b, v), (), st, node)
        if b.op == 'obj':
            o = st.heap[b.args[0]]
            if o.kind == 'inst':
                cv = self.class_lookup(o.cls, name)
                if cv is not None and cv.op == 'prop':
                    if cv.args[1] is NONE:
                        self.event('readonly', name, (b,), (), st, node)
                        return
                    self.call(cv.args[1], [b, v], [], st, node)
                    return
                st.w(b.args[0]).attrs[name] = v
                return
            st.w(b.args[0]).attrs[name] = v
        elif b.op == 'phi':
            self.split_state(b.args[0], st, lambda s, x: self.set_attr(
                x, name, v, s, node), b.args[1], b.args[2])
        elif b.op == 'class':
            c = self.classes.get(b.args[0])
            if c is not None:
                pass

    def split_state(self, c, st, fn, a, b):
        """Run fn(state, value) on both sides of a condition and merge."""
        base = st.path
        sa, sb = st.copy(), st.copy()
        ra = rb = None
        ok_a = self.assume(sa, c)
        ok_b = self.assume(sb, not_(c))
        da = db = False
        try:
            if ok_a:
                ra = fn(sa, a)
            else:
                da = True
        except Dead:
            da = True
        try:
            if ok_b:
                rb = fn(sb, b)
            else:
                db = True
        except Dead:
            db = True
        if da and db:
            raise Dead()
        if da:
            st.env, st.heap, st.path = sb.env, sb.heap, sb.path
            return rb
        if db:
            st.env, st.heap, st.path = sa.env, sa.heap, sa.path
            return ra
        j = self.join(c, sa, sb, base)
        st.heap, st.path = j.heap, j.path
        st.env.clear()
        st.env.update(j.env)
        if ra is None or rb is None:
            return ra or rb
        return phi(c, ra, rb)

    # subscripts -----------------------------------------------------------
    def ev_slice(self, e, st, fr):
        if isinstance(e, ast.Slice):
            return ('slice',
                    self.ev(e.lower, st, fr) if e.lower else NONE,
                    self.ev(e.upper, st, fr) if e.upper else NONE,
                    self.ev(e.step, st, fr) if e.step else NONE)
        return self.ev(e, st, fr)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev_slice(e.slice, st, fr)
        if isinstance(i, tuple):
            return self.get_slice(b, i[1], i[2], i[3], st)
        r = self.get_item(b, i, st, e)
        return r

    def get_slice(self, b, lo, hi, step, st):
        b = self.simp(b, st)
        if b.op == 'obj':
            o = st.heap[b.args[0]]
            if o.kind == 'bytes':
                v = tm.bseq(list(o.parts))
                if step is not NONE:
                    return mk('slice3', v, lo, hi, step)
                return tm.slice_(v, lo, hi)
            if o.kind == 'list' and all(p[0] == 'e' for p in o.parts) and \
                    lo.op == 'const' and hi.op == 'const' and \
                    step.op == 'const':
                t, n = self.new_obj(st, 'list')
                n.parts = tuple(list(o.parts)[cval(lo):cval(hi):cval(step)])
                return t
            b = self.snapshot(b, st)
        if step is not NONE:
            if is_const(b) and lo.op == 'const' and hi.op == 'const' and \
                    step.op == 'const':
                return const(cval(b)[cval(lo):cval(hi):cval(step)])
            return mk('slice3', b, lo, hi, step)
        return tm.slice_(b, lo, hi)

    def get_item(self, b, i, st, node=None):
        b = self.simp(b, st)
        i = self.simp(i, st)
        if b.op == 'obj':
            o = st.heap[b.args[0]]
            if o.kind == 'dict':
                return self.dict_get(b, i, None, st, node)
            if o.kind == 'list':
                ps = o.parts
                if is_int_const(i):
                    k = cval(i)
                    if k >= 0:
                        for p in ps:
                            if p[0] != 'e':
                                break
                            if k == 0:
                                return p[1]
                            k -= 1
                    else:
                        k = -k - 1
                        for p in reversed(ps):
                            if p[0] != 'e':
                                break
                            if k == 0:
                                return p[1]
                            k -= 1
                    if all(p[0] == 'e' for p in ps):
                        self.do_raise(mk('ext', 'IndexError'), st.copy(),
                                      node, self.frames[-1])
                        raise Dead()
                if len(ps) == 1 and ps[0][0] == 's':
                    return self.sym_item(ps[0][1], i)
                if is_int_const(i):
                    r = self.item_among(ps, cval(i))
                    if r is not None:
                        c, x = r
                        if c is not TRUE:
                            s2 = st.copy()
                            if self.assume(s2, not_(c)):
                                self.do_raise(mk('ext', 'IndexError'), s2,
                                              node, self.frames[-1])
                            if not self.assume(st, c):
                                raise Dead()
                        return self.simp(x, st)
                return self.sym_item(self.snapshot(b, st), i)
            if o.kind == 'bytes':
                return self.sym_item(tm.bseq(list(o.parts)), i)
            if o.kind == 'inst':
                g = self.class_lookup(o.cls, '__getitem__')
                if g is not None:
                    return self.call(self.bind_attr(g, b, st, node), [i], [],
                                     st, node)
        if b.op == 'phi' and all(x.op in ('obj', 'phi', 'tuple')
                                 for x in b.args[1:]):
            out = []
            for c, x in ((b.args[0], b.args[1]),
                         (not_(b.args[0]), b.args[2])):
                s2 = st.copy()
                if self.decide(c, st) is False or not self.assume(s2, c):
                    out.append(None)
                    continue
                try:
                    out.append(self.get_item(x, i, s2, node))
                except Dead:
                    out.append(None)
                    self.assume(st, not_(c))
                    continue
                for f in s2.path:
                    # what taking the item needs on this side
                    if f not in st.path and f is not c:
                        self.assume(st, or_(not_(c), f))
            if out[0] is None and out[1] is None:
                raise Dead()
            if out[0] is None or out[1] is None:
                return out[0] or out[1]
            return phi(b.args[0], *out)
        if b.op == 'const' and isinstance(cval(b), (tuple, list, dict)) and \
                is_const(i):
            try:
                return const(cval(b)[cval(i)])
            except Exception:
                pass
        return self.sym_item(b, i)

    def sym_item(self, b, i):
        al = self.index_alias.get(i)
        if al is b:
            return mk('each', b, 0)
        if i.op == 'idx' and i.args[0] is b:
            return mk('each', b, 0)
        if b.op == 'each' and is_int_const(i):
            return tm.item(b, i)
        return tm.item(b, i)

    def dict_get(self, b, k, default, st, node):
        o = st.heap[b.args[0]]
        if k in o.entries:
            v = o.entries[k]
            if v.op != 'absent':
                return v
        if is_const(k):
            for kk, v in o.entries.items():
                if is_const(kk):
                    try:
                        if cval(kk) == cval(k):
                            return v
                    except Exception:
                        pass
            if o.more is None and all(is_const(x) for x in o.entries):
                if default is not None:
                    return default
                s2 = st.copy()
                self.do_raise(mk('ext', 'KeyError'), s2, node,
                              self.frames[-1])
                raise Dead()
        if o.more is None and len(o.entries) <= 120 and \
                all(is_const(x) or x.op == 'tuple' for x in o.entries):
            if default is None:
                c = or_(*[cmp_('==', k, x) for x in o.entries])
                d = self.decide(c, st)
                if d is not True:
                    s2 = st.copy()
                    if self.assume(s2, not_(c)):
                        self.do_raise(mk('ext', 'KeyError'), s2, node,
                                      self.frames[-1])
                    self.assume(st, c)
                items = list(o.entries.items())
                r = items[-1][1] if items else mk('dead')
                items = items[:-1]
            else:
                r = default
                items = list(o.entries.items())
            for kk, v in reversed(items):
                r = phi(cmp_('==', k, kk), v, r)
            return r
        if default is not None:
            return mk('dictget', self.snapshot(b, st), k, default)
        return mk('item', self.snapshot(b, st), k)

    # operators --------------------------------------------------------------
    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def bytes_of(self, t, st):
        """bytes-like value of a term (through bytearray objects)."""
        if t.op == 'obj' and st.heap[t.args[0]].kind == 'bytes':
            return tm.bseq(list(st.heap[t.args[0]].parts))
        return t

    def binop(self, op, a, b, st, node):
        a = self.simp(a, st)
        b = self.simp(b, st)
        n = type(op).__name__
        a0, b0 = a, b
        if a.op == 'obj' and st.heap[a.args[0]].kind == 'bytes':
            isarr = True
        a = self.bytes_of(a, st)
        b = self.bytes_of(b, st)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                import operator
                f = {'Add': operator.add, 'Sub': operator.sub,
                     'Mult': operator.mul, 'FloorDiv': operator.floordiv,
                     'Mod': operator.mod, 'LShift': operator.lshift,
                     'RShift': operator.rshift, 'BitAnd': operator.and_,
                     'BitOr': operator.or_, 'BitXor': operator.xor,
                     'Div': operator.truediv, 'Pow': operator.pow}[n]
                if n == 'Pow' and isinstance(y, int) and abs(y) > 5000:
                    raise ValueError
                if n == 'LShift' and y > 5000:
                    raise ValueError
                if n == 'Mult' and isinstance(x, (bytes, str)) and \
                        y > 100000:
                    raise ValueError
                r = f(x, y)
                if a0.op == 'obj' and isinstance(r, bytes):
                    t, o = self.new_obj(st, 'bytes')
                    o.parts = tuple(tm.part_of(const(r)))
                    return t
                return const(r)
            except Exception:
                pass
        if a.op in ('dt', 'td') and b.op in ('dt', 'td'):
            r = self.time_binop(n, a, b)
            if r is not None:
                return r
        if a.op == 'dt' or b.op == 'dt':
            for x, y in ((a, b), (b, a)):
                if x.op == 'dt' and tm.type_of(y) in (
                        'int', 'float', 'str', 'bytes', 'none'):
                    self.do_raise(mk('ext', 'TypeError'), st.copy(), node,
                                  self.frames[-1] if self.frames else None)
                    raise Dead()
        ta, tb = tm.type_of(a), tm.type_of(b)
        if n == 'Add':
            if ta == 'bytes' or tb == 'bytes':
                r = tm.concat(a, b)
                if a0.op == 'obj':
                    t, o = self.new_obj(st, 'bytes')
                    o.parts = tuple(tm.part_of(r))
                    return t
                return r
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            if a.op == 'obj' or b.op == 'obj':
                ka = a.op == 'obj' and st.heap[a.args[0]].kind == 'list'
                kb = b.op == 'obj' and st.heap[b.args[0]].kind == 'list'
                if ka or kb:
                    t, o = self.new_obj(st, 'list')
                    o.parts = tuple(self.list_parts(a, st)) + tuple(
                        self.list_parts(b, st))
                    return t
            if ta == 'str' or tb == 'str':
                return tm.strcat(a, b)
            if ta == 'float' or tb == 'float':
                return mk('bin', '+', a, b)
            if ta == 'int' or tb == 'int' or (
                    a.op in ('lin', 'loopvar', 'loopout') or is_int_const(a)
                    or is_int_const(b)):
                if a.op == 'phi' and is_const(b) and False:
                    pass
                return tm.add(a, b)
            if a.op == 'phi' or b.op == 'phi':
                pass
            return mk('bin', '+', a, b)
        if n == 'Sub':
            if ta == 'float' or tb == 'float':
                return mk('bin', '-', a, b)
            if ta == 'int' or tb == 'int':
                return tm.sub(a, b)
            return mk('bin', '-', a, b)
        if n == 'Mult':
            for x, y in ((a, b), (b, a)):
                if x is const(''):
                    return x
            if is_int_const(a) and tb == 'int':
                return tm.scale(b, int(cval(a)))
            if is_int_const(b) and ta == 'int':
                return tm.scale(a, int(cval(b)))
            # byte repetition
            for x, y, x0 in ((a, b, a0), (b, a, b0)):
                if x.op == 'const' and isinstance(cval(x), bytes) and \
                        set(cval(x)) <= {0} and len(cval(x)) == 1:
                    r = tm.bseq([('z', y)])
                    if x0.op == 'obj':
                        t, o = self.new_obj(st, 'bytes')
                        o.parts = tuple(tm.part_of(r))
                        return t
                    return r
                if x.op == 'obj' and st.heap[x.args[0]].kind == 'list':
                    ps = st.heap[x.args[0]].parts
                    if is_int_const(y):
                        t, o = self.new_obj(st, 'list')
                        o.parts = tuple(ps) * max(0, int(cval(y)))
                        return t
                    if len(ps) == 1 and ps[0][0] == 'e':
                        t, o = self.new_obj(st, 'list')
                        o.parts = (('rept', y, ps[0][1]),)
                        return t
            if ta == 'bytes' or tb == 'bytes':
                return mk('brep', *((a, b) if ta == 'bytes' else (b, a)))
            if ta == 'int' and tb == 'int':
                if a.id > b.id:
                    a, b = b, a
                return mk('mulv', a, b)
            return mk('bin', '*', a, b)
        if n in ('RShift', 'LShift', 'BitAnd', 'FloorDiv', 'Mod', 'BitOr',
                 'BitXor', 'Div', 'Pow'):
            if ta == 'float' or tb == 'float':
                return mk('bin', n, a, b)
            if n == 'RShift' and is_int_const(b):
                return tm.bits(a, int(cval(b)), None)
            if n == 'LShift' and is_int_const(b):
                return tm.shl(a, int(cval(b)))
            if n == 'LShift':
                return tm.mk('shl', a, b)
            if n == 'RShift':
                return mk('shr', a, b)
            if n == 'BitAnd':
                k, x = (a, b) if is_int_const(a) else (b, a)
                if is_int_const(k):
                    v = int(cval(k))
                    if v >= 0 and (v & (v + 1)) == 0:
                        return tm.bits(x, 0, v.bit_length())
                    if v > 0:
                        lo = (v & -v).bit_length() - 1
                        w = v >> lo
                        if (w & (w + 1)) == 0:
                            return tm.shl(tm.bits(x, lo, w.bit_length()), lo)
                    return mk('mask', x, v)
                if a.op == 'obj' or b.op == 'obj':
                    return self.intersect(a, b, st, node)
                return mk('bin', '&', *sorted((a, b)))
            if n == 'FloorDiv' and is_int_const(b) and cval(b) > 0:
                v = int(cval(b))
                if v & (v - 1) == 0:
                    return tm.bits(a, v.bit_length() - 1, None)
                return tm.floordiv(a, b)
            if n == 'Mod' and ta == 'str' or (n == 'Mod' and is_const(a)):
                v = self.snapshot(b, st)
                if is_const(a) and isinstance(cval(a), str):
                    one = v.args[0] if v.op == 'tuple' and len(
                        v.args) == 1 else v
                    r = tm.hexfmt(cval(a), one)
                    if r is not None:
                        return r
                    fa = v.args if v.op == 'tuple' else (v,)
                    if cval(a).count('%') == cval(a).count('%s') == len(fa):
                        ls = cval(a).split('%s')
                        r = texts([y for x, w in zip(ls, fa) for y in (
                            const(x), w)] + [const(ls[-1])])
                        if r is not None:
                            return r
                return mk('fmt', a, v)
            if n == 'Mod' and is_int_const(b) and cval(b) > 0:
                v = int(cval(b))
                if v & (v - 1) == 0:
                    return tm.bits(a, 0, v.bit_length() - 1)
                return tm.mod(a, b)
            if n == 'Mod':
                return mk('mod', a, b)
            if n == 'BitOr':
                if a.op == 'obj' or b.op == 'obj':
                    if any(x.op == 'obj' and
                           st.heap[x.args[0]].kind == 'set'
                           for x in (a, b)):
                        t, o = self.new_obj(st, 'set')
                        o.parts = tuple(self.list_parts(a, st)) + tuple(
                            self.list_parts(b, st))
                        return t
                # disjoint bits: same as addition
                if disjoint(a, b):
                    return tm.add(a, b)
                return mk('bin', '|', *sorted((a, b)))
            return mk('bin', n, a, b)
        return mk('bin', n, a, b)

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truthy(v, st))
        if is_const(v):
            try:
                if isinstance(e.op, ast.USub):
                    return const(-cval(v))
                if isinstance(e.op, ast.Invert):
                    return const(~cval(v))
            except Exception:
                pass
        if isinstance(e.op, ast.USub):
            if tm.type_of(v) == 'int' or v.op in ('phi', 'sym', 'attr'):
                if v.op == 'phi':
                    return phi(v.args[0], tm.scale(v.args[1], -1),
                               tm.scale(v.args[2], -1))
                return tm.scale(v, -1)
        return mk('un', type(e.op).__name__, v)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        save = st.path
        vals = []
        conds = []
        result = None
        st_path = st.path
        allv = []
        for x in e.values:
            s2 = State(st.env, st.heap, st.path)
            for c in conds:
                self.assume(s2, c if isand else not_(c))
            try:
                v = self.ev(x, s2, fr)
            except Dead:
                if not allv:
                    raise
                break
            st.heap = s2.heap
            v = self.simp(v, s2)
            c = self.truthy(v, s2)
            d = self.decide(c, s2)
            allv.append((v, c, d))
            conds.append(c)
            if d is not None and d is (not isand):
                break
        # combine
        r = allv[-1][0]
        if all(tm.type_of(v) == 'bool' or v in (TRUE, FALSE)
               for v, _, _ in allv):
            cs = [const(d) if d is not None else c for _, c, d in allv]
            return and_(*cs) if isand else or_(*cs)
        for v, c, d in reversed(allv[:-1]):
            if d is not None:
                if d is (not isand):
                    r = v
                continue
            r = phi(c, r, v) if isand else phi(c, v, r)
        return r

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, right in zip(e.ops, e.comparators):
            r = self.ev(right, st, fr)
            out.append(self.compare(op, left, r, st, e))
            left = r
        return and_(*out) if len(out) > 1 else out[0]

    OPN = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
           'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in',
           'NotIn': 'not in'}

    def compare(self, op, a, b, st, node):
        n = self.OPN[type(op).__name__]
        a, b = self.simp(a, st), self.simp(b, st)
        if n in ('is', 'is not'):
            if a.op == 'obj' and b.op == 'obj':
                return const((a is b) == (n == 'is'))
            return cmp_(n, a, b)
        if n in ('in', 'not in'):
            if b.op == 'obj':
                o = st.heap[b.args[0]]
                if o.kind in ('list', 'set'):
                    ts = []
                    other = []
                    for p in o.parts:
                        if p[0] == 'e':
                            ts.append(self.equal(p[1], a, st, node))
                        elif p[0] == 's':
                            ts.append(mk('cmp', 'in', self.snap(a, st),
                                         p[1]))
                        else:
                            ts.append(mk('cmp', 'in', self.snap(a, st),
                                         mk('listv', p)))
                    r = or_(*ts)
                    return r if n == 'in' else not_(r)
                if o.kind == 'dict':
                    if o.more is None:
                        r = or_(*[cmp_('==', a, k) for k in o.entries])
                        return r if n == 'in' else not_(r)
                    return mk('cmp', n, a, self.snapshot(b, st))
                if o.kind == 'inst':
                    r = self.dunder(b, '__contains__', [a], st, node)
                    if r is not None:
                        r = self.truthy(r, st)
                        return r if n == 'in' else not_(r)
            return cmp_(n, self.snap(a, st), self.snap(b, st))
        if a.op == 'obj' and st.heap[a.args[0]].kind == 'inst' and \
                n in ('==', '!='):
            if a is b:
                return const(n == '==')
            m = self.class_lookup(st.heap[a.args[0]].cls, '__eq__')
            if m is not None and m.op == 'func' and \
                    len(self.stack) < MAXDEPTH and \
                    not getattr(self, 'no_eq_inline', False):
                r = self.call(mk('bound', a, m), [b], [], st, node)
                r = self.truthy(r, st)
                return r if n == '==' else not_(r)
        if a.op == b.op and a.op in ('dt', 'td'):
            return cmp_(n, a.args[0], b.args[0])
        if n in ('==', '!='):
            r = self.equal_items(a, b, st, node)
            if r is not None:
                return r if n == '==' else not_(r)
        return cmp_(n, self.snap(a, st), self.snap(b, st))

    def equal(self, a, b, st, node):
        return self.compare(ast.Eq(), a, b, st, node)

    def equal_items(self, a, b, st, node):
        """Equality of two containers of known elements, or None."""
        kinds = [self.kind_of(x, st) for x in (a, b)]
        if kinds[0] != kinds[1] or kinds[0] not in ('list', 'set', 'tuple'):
            return None
        x, y = self.concrete_items(a, st), self.concrete_items(b, st)
        if x is None or y is None:
            return None
        if kinds[0] == 'set':
            return and_(*(
                [or_(*[self.equal(p, q, st, node) for q in y]) for p in x] +
                [or_(*[self.equal(p, q, st, node) for p in x]) for q in y]))
        if len(x) != len(y):
            return FALSE
        return and_(*[self.equal(p, q, st, node) for p, q in zip(x, y)])

    def kind_of(self, t, st):
        if t.op == 'tuple':
            return 'tuple'
        if t.op == 'obj':
            return st.heap[t.args[0]].kind
        return None

    def snap(self, t, st):
        if t.op == 'obj' and st.heap[t.args[0]].kind in (
                'bytes', 'list', 'set', 'dict'):
            return self.snapshot(t, st)
        return t

    def snapshot(self, t, st, depth=0):
        """Value of a mutable object frozen into a term."""
        if depth > 4:
            return t
        if t.op == 'tuple':
            return mk('tuple', *[self.snapshot(x, st, depth + 1)
                                 for x in t.args])
        if t.op == 'phi':
            return phi(t.args[0], self.snapshot(t.args[1], st, depth + 1),
                       self.snapshot(t.args[2], st, depth + 1))
        if t.op != 'obj':
            return t
        o = st.heap.get(t.args[0])
        if o is None:
            return t
        if o.kind == 'bytes':
            return tm.bseq(list(o.parts))
        if o.kind in ('list', 'set'):
            def sp(p):
                if p[0] == 'e':
                    return ('e', self.snapshot(p[1], st, depth + 1))
                if p[0] in ('rep',):
                    return ('rep', p[1], tuple(sp(q) for q in p[2]))
                if p[0] == 'alt':
                    return ('alt', p[1], tuple(sp(q) for q in p[2]),
                            tuple(sp(q) for q in p[3]))
                return p
            ps = tuple(sp(p) for p in o.parts)
            if len(ps) == 1 and ps[0][0] == 's':
                return ps[0][1]
            return mk('listv', *ps)
        if o.kind == 'dict':
            return mk('dictv', tuple((k, self.snapshot(v, st, depth + 1))
                                     for k, v in o.entries.items()),
                      o.more or NONE)
        if o.kind == 'hash':
            return mk('hashst', o.ctor, tm.bseq(list(o.parts)))
        if o.kind == 'ext':
            return o.ctor if not o.log else mk('extst', o.ctor, o.log)
        if o.kind == 'inst' and o.open and o.root is not None:
            return o.root
        return t

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        d = self.decide(c, st)
        if d is True:
            return self.ev(e.body, st, fr)
        if d is False:
            return self.ev(e.orelse, st, fr)
        return self.split_state(c, st, lambda s, x: self.ev(x, s, fr),
                                e.body, e.orelse)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                items = self.concrete_items(v, st)
                if items is None:
                    return tm.unk('startuple', v, *out)
                out.extend(items)
            else:
                out.append(self.ev(x, st, fr))
        return mk('tuple', *out)

    def e_List(self, e, st, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.list_parts(self.ev(x.value, st, fr), st))
            else:
                parts.append(('e', self.ev(x, st, fr)))
        t, o = self.new_obj(st, 'list')
        o.parts = tuple(parts)
        return t

    def e_Set(self, e, st, fr):
        parts = [('e', self.ev(x, st, fr)) for x in e.elts]
        t, o = self.new_obj(st, 'set')
        o.parts = tuple(parts)
        return t

    def e_Dict(self, e, st, fr):
        vals = []
        more = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                more = self.ev(v, st, fr)
                if more.op == 'obj' and st.heap[more.args[0]].kind == \
                        'dict' and st.heap[more.args[0]].more is None:
                    vals.extend(st.heap[more.args[0]].entries.items())
                    more = None
                continue
            vals.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        t, o = self.new_obj(st, 'dict')
        for k, v in vals:
            o.entries[k] = v
        o.more = more
        return t

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        self.event('yield', None, (v,), (), st, e)
        y = st.env.get('\0yield')
        if y is not None:
            st.w(y.args[0]).parts += (('e', v),)
        return tm.unk('sent')

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        y = st.env.get('\0yield')
        if y is not None:
            st.w(y.args[0]).parts += tuple(self.list_parts(v, st))
        return tm.unk('sent')

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        plain = True
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, st, fr)
                parts.append(self.snapshot(v, st))
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, st, fr)
                    v = parts[-1]
                    if is_const(v) and is_const(spec) and x.conversion < 0:
                        try:
                            parts[-1] = const(format(cval(v), cval(spec)))
                            continue
                        except Exception:
                            pass
                    plain = False
                    parts.append(spec)
                elif x.conversion >= 0 and x.conversion != 115:
                    plain = False
            else:
                parts.append(const(x.value))
        if not plain:
            return mk('fmt', const('f'), *parts)
        if all(is_const(p) for p in parts):
            try:
                return const(''.join(str(cval(p)) for p in parts))
            except Exception:
                pass
        r = texts(parts)
        return mk('fmt', const('f'), *parts) if r is None else r

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # comprehensions
    def e_ListComp(self, e, st, fr):
        parts = self.comp(e.generators, [e.elt], st, fr)
        t, o = self.new_obj(st, 'list')
        o.parts = tuple(parts)
        return t

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        parts = self.comp(e.generators, [e.elt], st, fr)
        t, o = self.new_obj(st, 'set')
        o.parts = tuple(parts)
        return t

    def e_DictComp(self, e, st, fr):
        parts = self.comp(e.generators, [e.key, e.value], st, fr)
        t, o = self.new_obj(st, 'dict')
        for p in parts:
            if p[0] == 'e' and p[1].op == 'tuple':
                o.entries[p[1].args[0]] = p[1].args[1]
            else:
                o.more = tm.unk('dictcomp', mk('listv', p))
        return t

    def comp(self, gens, elts, st, fr):
        sub = Frame(fr.func, fr.module)
        sub.closure = fr.closure
        sub.cls = fr.cls
        sub.is_class = False
        sub.localnames = fr.localnames
        env = dict(st.env)
        cst = State(env, st.heap, st.path)
        self.frames.append(sub)
        try:
            parts = self.comp_gen(gens, elts, cst, sub)
        finally:
            self.frames.pop()
        st.heap = cst.heap
        for k in self.modheap:
            if k not in st.heap:
                st.heap[k] = self.modheap[k]
        return parts

    def comp_gen(self, gens, elts, st, fr):
        if not gens:
            vs = [self.ev(x, st, fr) for x in elts]
            return [('e', vs[0] if len(vs) == 1 else mk('tuple', *vs))]
        g = gens[0]
        it = self.drain(self.ev(g.iter, st, fr), st, g.iter)
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= 600:
            out = []
            for x in items:
                self.assign(g.target, x, st, fr)
                out.extend(self.comp_conds(g.ifs, gens[1:], elts, st, fr))
            return out
        items = self.guarded_items(it, st)
        if items is not None and len(items) <= 8:
            out = []
            for x, there in items:
                save = st.path
                d = self.decide(there, st)
                if d is False or not self.assume(st, there):
                    st.path = save
                    continue
                self.assign(g.target, x, st, fr)
                body = self.comp_conds(g.ifs, gens[1:], elts, st, fr)
                st.path = save
                if d is True or not body:
                    out.extend(body)
                else:
                    out.append(('alt', there, tuple(body), ()))
            return out
        over, elem = self.iter_elem(it, st)
        self.loopid += 1
        self.loopstack.append({'id': self.loopid, 'over': over,
                               'elem': elem})
        try:
            self.assign(g.target, elem, st, fr)
            body = self.comp_conds(g.ifs, gens[1:], elts, st, fr)
        finally:
            self.loopstack.pop()
        return [('rep', over, tuple(body))]

    def comp_conds(self, ifs, gens, elts, st, fr):
        save = st.path
        cs = []
        for c in ifs:
            t = self.cond(c, st, fr)
            d = self.decide(t, st)
            if d is False:
                st.path = save
                return []
            if d is None:
                cs.append(t)
                self.assume(st, t)
        body = self.comp_gen(gens, elts, st, fr)
        st.path = save
        if cs:
            return [('alt', and_(*cs), tuple(body), ())]
        return body

    # lists with members that are there under a condition only
    def holds_any(self, parts):
        out = FALSE
        for p in parts:
            if p[0] == 'e':
                return TRUE
            if p[0] != 'alt':
                return None
            a, b = self.holds_any(p[2]), self.holds_any(p[3])
            if a is None or b is None:
                return None
            out = or_(out, tm.cond_phi(p[1], a, b))
        return out

    def item_among(self, parts, k):
        """(when there is one, the item)"""
        parts = list(parts)
        last = k < 0
        if last:
            parts = parts[::-1]
            k = -k - 1

        def order(ps):
            return list(ps)[::-1] if last else list(ps)

        def at(ps, k):
            if not ps:
                return FALSE, NONE
            p = ps[0]
            if p[0] == 'e':
                return (TRUE, p[1]) if k == 0 else at(ps[1:], k - 1)
            if p[0] != 'alt' or len(ps) > 8:
                return None
            a = at(order(p[2]) + ps[1:], k)
            b = at(order(p[3]) + ps[1:], k)
            if a is None or b is None:
                return None
            if a[0] is FALSE:
                return and_(not_(p[1]), b[0]), b[1]
            if b[0] is FALSE:
                return and_(p[1], a[0]), a[1]
            return tm.cond_phi(p[1], a[0], b[0]), phi(p[1], a[1], b[1])
        if not any(p[0] == 'alt' for p in parts):
            return None
        return at(parts, k)

    def guarded_items(self, t, st):
        """[(element, when it is there)] of such a list."""
        if t.op == 'phi':
            out = []
            for c, x in ((t.args[0], t.args[1]), (not_(t.args[0]), t.args[2])):
                items = self.concrete_items(x, st)
                if items is not None:
                    items = [(i, TRUE) for i in items]
                else:
                    items = self.guarded_items(x, st)
                if items is None:
                    return None
                out += [(i, and_(c, g)) for i, g in items]
            return out
        if t.op == 'obj' and st.heap[t.args[0]].kind == 'list':
            parts = st.heap[t.args[0]].parts
        elif t.op == 'listv':
            parts = t.args
        else:
            return None

        def among(parts, g):
            out = []
            for p in parts:
                if p[0] == 'e':
                    out.append((p[1], g))
                elif p[0] == 'alt':
                    a = among(p[2], and_(g, p[1]))
                    b = among(p[3], and_(g, not_(p[1])))
                    if a is None or b is None:
                        return None
                    out += a + b
                else:
                    return None
            return out
        return among(parts, TRUE)

    # iterables ----------------------------------------------------------
    def concrete_items(self, t, st):
        """List of element terms if the iterable is fully known."""
        if t.op == 'tuple':
            return list(t.args)
        if t.op == 'const':
            v = cval(t)
            if isinstance(v, (bytes, str, tuple, list, range)):
                return [const(x) for x in v]
            return None
        if t.op == 'obj':
            o = st.heap[t.args[0]]
            if o.kind in ('list', 'set'):
                if all(p[0] == 'e' for p in o.parts):
                    return [p[1] for p in o.parts]
                return None
            if o.kind == 'dict' and o.more is None:
                return list(o.entries)
            if o.kind == 'bytes':
                b = tm.bseq(list(o.parts))
                return self.concrete_items(b, st)
        if t.op == 'bseq':
            out = []
            for p in t.args:
                n = tm._fixed(p)
                if n is None or n > 4096:
                    return None
                for i in range(n):
                    out.append(tm.part_octet(p, i))
            return out
        if t.op == 'call' and t.args[0] == 'range' and \
                all(is_int_const(x) for x in t.args[1]):
            r = range(*[cval(x) for x in t.args[1]])
            if len(r) <= 4096:
                return [const(x) for x in r]
        if t.op == 'call' and t.args[0] == 'enumerate':
            it = self.concrete_items(t.args[1][0], st)
            if it is not None:
                s0 = 0
                if len(t.args[1]) > 1 and is_int_const(t.args[1][1]):
                    s0 = cval(t.args[1][1])
                return [mk('tuple', const(i + s0), x)
                        for i, x in enumerate(it)]
        if t.op == 'call' and t.args[0] == 'zip':
            its = [self.concrete_items(x, st) for x in t.args[1]]
            if all(i is not None for i in its):
                return [mk('tuple', *z) for z in zip(*its)]
        if t.op == 'call' and t.args[0] == 'reversed':
            it = self.concrete_items(t.args[1][0], st)
            if it is not None:
                return it[::-1]
        if t.op in ('slice', 'fixed') and tm.type_of(t) == 'bytes':
            n = tm.length(t)
            if is_int_const(n) and cval(n) <= 64:
                return [tm.item(t, const(i)) for i in range(cval(n))]
        if t.op == 'listv' and all(p[0] == 'e' for p in t.args):
            return [p[1] for p in t.args]
        return None

    def list_parts(self, t, st):
        t = self.simp(t, st)
        items = self.concrete_items(t, st)
        if items is not None:
            return [('e', x) for x in items]
        if t.op == 'obj':
            o = st.heap[t.args[0]]
            if o.kind in ('list', 'set'):
                return list(o.parts)
            if o.kind == 'dict':
                return [('s', mk('keys', self.snapshot(t, st)))]
            if o.kind == 'bytes':
                return [('s', tm.bseq(list(o.parts)))]
        if t.op == 'listv':
            return list(t.args)
        return [('s', t)]

    def byte_parts(self, v, st):
        """Parts contributed by extending a bytearray with v."""
        v = self.simp(v, st)
        if v.op == 'obj':
            o = st.heap[v.args[0]]
            if o.kind == 'bytes':
                return list(o.parts)
            if o.kind in ('list', 'set'):
                return self.list_to_bytes(o.parts, st)
            if o.kind == 'inst':
                b = self.to_bytes(v, st, None)
                return tm.part_of(b)
        if v.op == 'tuple':
            return [('b', x) for x in v.args]
        if v.op == 'listv':
            return self.list_to_bytes(v.args, st)
        if v.op == 'phi':
            return [('alt', v.args[0], tuple(self.byte_parts(v.args[1], st)),
                     tuple(self.byte_parts(v.args[2], st)))]
        return tm.part_of(v)

    def list_to_bytes(self, parts, st):
        out = []
        for p in parts:
            if p[0] == 'e':
                out.append(('b', p[1]))
            elif p[0] == 's':
                out.append(('c', p[1]))
            elif p[0] == 'rep':
                out.append(('rep', p[1], tuple(
                    self.list_to_bytes(p[2], st))))
            elif p[0] == 'alt':
                out.append(('alt', p[1], tuple(self.list_to_bytes(p[2], st)),
                            tuple(self.list_to_bytes(p[3], st))))
            elif p[0] == 'rept':
                if is_int_const(p[2]) and cval(p[2]) == 0:
                    out.append(('z', p[1]))
                else:
                    out.append(('c', mk('brept', p[1], p[2])))
            elif p[0] == 'lp':
                out.append(p)
            else:
                out.append(('c', tm.unk('listpart')))
        return out

    def extend_obj(self, oid, v, st):
        o = st.w(oid)
        if o.kind == 'bytes':
            o.parts = tuple(tm.norm_parts(
                list(o.parts) + self.byte_parts(v, st)))
        else:
            o.parts = o.parts + tuple(self.list_parts(v, st))

    def to_bytes(self, v, st, node):
        """bytes(v) / bytearray(v) content."""
        v = self.simp(v, st)
        if v.op == 'obj':
            o = st.heap[v.args[0]]
            if o.kind == 'bytes':
                return tm.bseq(list(o.parts))
            if o.kind in ('list', 'set'):
                return tm.bseq(self.list_to_bytes(o.parts, st))
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__bytes__')
                if m is not None:
                    r = self.call(mk('bound', v, m), [], [], st, node)
                    return self.bytes_of(r, st)
                return mk('call', 'bytes', (v,), ())
        if v.op == 'tuple':
            return tm.bseq([('b', x) for x in v.args])
        if is_int_const(v):
            return const(b'\0' * max(0, min(cval(v), 1 << 16)))
        if tm.type_of(v) == 'bytes':
            return v
        if tm.type_of(v) == 'int':
            return tm.bseq([('z', v)])
        if v.op == 'listv':
            return tm.bseq(self.list_to_bytes(v.args, st))
        if v.op == 'phi':
            return self.split_state(
                v.args[0], st, lambda s, x: self.to_bytes(x, s, node),
                v.args[1], v.args[2])
        if v.op == 'call' and v.args[0] == 'map':
            pass
        return mk('call', 'bytes', (v,), ())

    # ------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in st.env:
            if not e.args:
                first = st.env.get(first_param(fr.func.node)) \
                    if fr.func else None
                return mk('super', fr.cls, first if first is not None
                          else NONE)
            c = self.ev(e.args[0], st, fr)
            s = self.ev(e.args[1], st, fr) if len(e.args) > 1 else NONE
            return mk('super', c.args[0] if c.op == 'class' else
                      tm.show(c), s)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'vars',
                                                          'globals'):
            return tm.unk(e.func.id)
        fn = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(a.value, st, fr)))
            else:
                args.append(self.ev(a, st, fr))
        kw = []
        for k in e.keywords:
            kw.append((k.arg, self.ev(k.value, st, fr)))
        return self.call(fn, args, kw, st, e)

    def call_method(self, b, name, args, kw, st, node):
        fn = self.get_attr(b, name, st, node)
        return self.call(fn, args, kw, st, node)

    def call(self, fn, args, kw, st, node):
        self.callsites += 1
        fn = self.delazy(fn, st)
        fn = self.simp(fn, st)
        op = fn.op
        if op == 'func':
            return self.call_func(fn, args, kw, st, node)
        if op == 'static' or op == 'ctxfunc':
            return self.call(fn.args[0], args, kw, st, node)
        if op == 'classm':
            return self.call(fn.args[0], args, kw, st, node)
        if op == 'bound':
            return self.call(fn.args[1], [fn.args[0]] + list(args), kw, st,
                             node)
        if op == 'class':
            return self.instantiate(fn, args, kw, st, node)
        if op == 'partial':
            mine = [k for k, _ in kw]
            return self.call(fn.args[0], list(fn.args[1]) + list(args),
                             [(k, v) for k, v in fn.args[2]
                              if k not in mine] + list(kw), st, node)
        if op == 'phi':
            return self.split_state(
                fn.args[0], st,
                lambda s, x: self.call(x, args, kw, s, node),
                fn.args[1], fn.args[2])
        if op == 'wref' and not args and not kw:
            return fn.args[0]       # the referent is assumed alive
        if op == 'ext':
            return self.call_ext(fn.args[0], args, kw, st, node)
        if op == 'extmeth':
            return self.call_extmeth(fn.args[0], fn.args[1], args, kw, st,
                                     node)
        if op == 'bound_ext':
            self.event('call', fn.args[1], tuple(self.flat(args, st)), (),
                       st, node, base=fn.args[0])
            return tm.unk(fn.args[1], fn.args[0])
        if op == 'propattr':
            # property.__get__(obj)
            if fn.args[1] == '__get__' and args:
                return self.call_prop(fn.args[0], args[0], st, node)
            if fn.args[1] in ('fget',):
                return self.call_prop(fn.args[0], args[0], st, node)
        if op == 'attr':
            return self.call_mcall(fn.args[0], fn.args[1], args, kw, st,
                                   node)
        if op == 'const' or op in ('item', 'sym', 'call', 'mcall', 'unk',
                                   'each'):
            pass
        fa = tuple(self.flat(args, st))
        fk = tuple((k, self.snapshot(v, st)) for k, v in kw)
        r = mk('call', 'apply', (self.snapshot(fn, st),) + fa, fk)
        self.event('call', 'apply', fa, fk, st, node, r, base=fn)
        self.lend(args, kw, st)
        return r

    def flat(self, args, st):
        out = []
        for a in args:
            if isinstance(a, tuple):
                items = self.concrete_items(a[1], st)
                if items is None:
                    out.append(mk('star', self.snapshot(a[1], st)))
                else:
                    out.extend(self.snapshot(x, st) for x in items)
            else:
                out.append(self.snapshot(a, st))
        return out

    def qual(self, f):
        return f.module.name + '.' + (
            (f.cls.split(':')[1] + '.') if f.cls else '') + f.name

    def call_func(self, fn, args, kw, st, node):
        f = self.funcs[fn.args[0]]
        q = self.qual(f)
        if f.kind == 'ctx':
            r = mk('call', q, tuple(self.flat(args, st)),
                   tuple((k, self.snapshot(v, st)) for k, v in kw))
            self.event('call', q, tuple(args), tuple(kw), st, node, r)
            return r
        h = self.intr.get(q)
        if h is not None:
            r = h(self, f, args, kw, st, node)
            if r is not NotImplemented:
                self.event('call', q, tuple(args), tuple(kw), st, node, r)
                return r
        depth = sum(1 for s in self.stack
                    if s[2] == f.name and s[1] == f.cls and
                    s[0] == f.module.name)
        if q in self.opaque or f.name in self.noinline or \
                len(self.stack) >= MAXDEPTH or depth >= self.maxrec:
            r = mk('call', q, tuple(self.flat(args, st)),
                   tuple((k, self.snapshot(v, st)) for k, v in kw))
            self.event('call', q, tuple(args), tuple(kw), st, node, r)
            return r
        ev = self.event('enter', q, tuple(args), tuple(kw), st, node)
        fr, value, out = self.invoke(f, args, kw, st, node)
        self.event('leave', q, tuple(args), tuple(kw),
                   out if out is not None else st, node, value)
        if out is None:
            raise Dead()
        st.heap = out.heap
        st.path = out.path
        return value

    def instantiate(self, c, args, kw, st, node):
        cname = c.args[0]
        q = cname.replace(':', '.')
        h = self.intr.get(q)
        if h is not None:
            r = h(self, c, args, kw, st, node)
            if r is not NotImplemented:
                self.event('call', q, tuple(args), tuple(kw), st, node, r)
                return r
        t, o = self.new_obj(st, 'inst', cname)
        ev = self.event('new', q, tuple(args), tuple(kw), st, node, t)
        init = self.class_lookup(cname, '__init__')
        if init is not None and init.op == 'func':
            self.call_func(init, [t] + list(args), kw, st, node)
        else:
            o = st.w(t.args[0])
            bases = [n for n in self.mro(cname) if n not in self.classes]
            o.attrs['args'] = mk('tuple', *self.flat(args, st))
            for b in bases:
                for n, v in zip(EXT_INIT.get(b, ()), args):
                    o.attrs[n] = v
        return t

    def call_mcall(self, b, name, args, kw, st, node):
        """Method call on an opaque base."""
        b = self.simp(b, st)
        h = self.intr.get('.' + name)
        if h is not None:
            r = h(self, b, args, kw, st, node)
            if r is not NotImplemented:
                self.event('call', '.' + name, tuple(args), tuple(kw), st,
                           node, r, base=b)
                return r
        m = getattr(self, 'm_' + name, None)
        r = m(b, args, kw, st, node) if m is not None else \
            self.const_method(b, name, args, kw, st) if is_const(b) and \
            isinstance(cval(b), (str, bytes)) else None
        if r is not None:
            return r
        fa = tuple(self.flat(args, st))
        fk = tuple((k, self.snapshot(v, st)) for k, v in kw)
        if pk_fields(b) is not None:
            fa = tuple(map(as_tuple, fa))
        r = mk('mcall', self.snapshot(b, st), name, fa, fk)
        self.event('call', '.' + name, tuple(args), fk, st, node, r, base=b)
        if tm.type_of(b) not in ('str', 'bytes', 'int'):
            self.lend(args, kw, st)
        return r

    # string / bytes methods on value terms -------------------------------
    def m_join(self, b, args, kw, st, node):
        if is_const(b) and len(args) == 1 and isinstance(args[0], tm.T):
            v = cval(b)
            if isinstance(v, bytes) and v == b'':
                parts = self.list_parts(args[0], st)

                def conv(ps):
                    out = []
                    for p in ps:
                        if p[0] == 'e':
                            x = self.bytes_of(p[1], st)
                            out.extend(tm.part_of(x))
                        elif p[0] == 's':
                            out.append(('rep', p[1], (('c', mk(
                                'each', p[1], 0)),)))
                        elif p[0] == 'rep':
                            out.append(('rep', p[1], tuple(conv(p[2]))))
                        elif p[0] == 'alt':
                            out.append(('alt', p[1], tuple(conv(p[2])),
                                        tuple(conv(p[3]))))
                        else:
                            out.append(p)
                    return out
                return tm.bseq(conv(parts))
            items = self.concrete_items(args[0], st)
            if items is not None and all(is_const(x) for x in items):
                try:
                    return const(v.join(cval(x) for x in items))
                except Exception:
                    pass
            if isinstance(v, str) and items and all(
                    tm.type_of(x) == 'str' for x in items):
                r = items[0]
                for x in items[1:]:
                    r = tm.strcat(tm.strcat(r, b), x)
                return r
            if isinstance(v, str):
                return mk('strjoin', b, self.snapshot(args[0], st))
        return None

    def m_format(self, b, args, kw, st, node):
        fa = self.flat(args, st)
        fk = [(k, self.snapshot(v, st)) for k, v in kw]
        if is_const(b) and isinstance(cval(b), str) and \
                all(is_const(x) for x in fa) and all(is_const(v)
                                                     for _, v in fk):
            try:
                return const(cval(b).format(*[cval(x) for x in fa],
                                            **{k: cval(v) for k, v in fk}))
            except Exception:
                pass
        if is_const(b) and isinstance(cval(b), str):
            if len(fa) == 1 and not fk:
                if cval(b).upper() in ('{:02X}', '{0:02X}'):
                    w = tm.max_width(fa[0])
                    if w is not None and w <= 8:
                        return hexoctet(fa[0])
                r = tm.hexfmt(cval(b), fa[0])
                if r is not None:
                    return r
            r = plain_format(cval(b), fa, dict(fk))
            if r is not None:
                return r
        return mk('fmt', b, *(fa + [v for _, v in fk]))

    def const_method(self, b, name, args, kw, st):
        if is_const(b) and not kw and all(isinstance(a, tm.T) and is_const(a)
                                          for a in args):
            v = cval(b)
            if isinstance(v, (str, bytes, int)) and hasattr(v, name) and \
                    name not in ('__class__',):
                try:
                    r = getattr(v, name)(*[cval(a) for a in args])
                    if isinstance(r, list):
                        return self.new_list(st, [const(x) for x in r])
                    if isinstance(r, (str, bytes, int, bool, type(None))):
                        return const(r)
                    if isinstance(r, tuple):
                        return mk('tuple', *map(const, r))
                except Exception:
                    return None
        return None

    # regular expressions over constants
    def regex(self, b, how, args, kw):
        if b.op == 'call' and b.args[0] == 're.compile' and not kw and \
                len(args) == 1 and not b.args[2] and all(
                    map(is_const, b.args[1])) and is_const(args[0]):
            import re
            try:
                x = re.compile(*map(cval, b.args[1]))
                m = getattr(x, how)(cval(args[0]))
            except Exception:
                return None
            if m is None:
                return NONE
            return mk('call', 're.Match', b.args[1] + (
                const(how), args[0]), ())

    def m_match(self, b, args, kw, st, node):
        return self.regex(b, 'match', args, kw)

    def m_fullmatch(self, b, args, kw, st, node):
        return self.regex(b, 'fullmatch', args, kw)

    def m_search(self, b, args, kw, st, node):
        return self.regex(b, 'search', args, kw)

    def matched(self, b):
        if b.op == 'call' and b.args[0] == 're.Match':
            import re
            a = [cval(x) for x in b.args[1]]
            return getattr(re.compile(*a[:-2]), a[-2])(a[-1])

    def of_match(self, b, name, args, kw):
        m = self.matched(b)
        if m is not None and not kw and all(map(is_const, args)):
            try:
                r = getattr(m, name)(*map(cval, args))
            except IndexError:
                return None
            if isinstance(r, tuple):
                return mk('tuple', *map(const, r))
            return const(r)

    def m_group(self, b, args, kw, st, node):
        return self.of_match(b, 'group', args, kw)

    def m_groups(self, b, args, kw, st, node):
        return self.of_match(b, 'groups', args, kw)

    def m_start(self, b, args, kw, st, node):
        return self.of_match(b, 'start', args, kw)

    def m_end(self, b, args, kw, st, node):
        return self.of_match(b, 'end', args, kw)

    def m_upper(self, b, args, kw, st, node):
        r = self.const_method(b, 'upper', args, kw, st)
        if r is not None:
            return r
        return uphex(b)

    def m_encode(self, b, args, kw, st, node):
        return self.codec_method(tm.encode, b, args, kw, st)

    def codec_method(self, f, b, args, kw, st):
        a = [self.snapshot(x, st) for x in args]
        k = {n: self.snapshot(v, st) for n, v in (kw or {}).items()}
        for i, n in enumerate(('encoding', 'errors')):
            if n in k and len(a) == i:
                a.append(k.pop(n))
            elif len(a) == i:
                a.append(const(('utf-8', 'strict')[i]))
        if k or len(a) != 2 or not all(
                is_const(x) and isinstance(cval(x), str) for x in a):
            return None
        c = tm.codec(cval(a[0]), cval(a[1]))
        if c is None or tm.type_of(self.snapshot(b, st)) not in (
                'bytes', 'str', None):
            return None
        return f(self.snapshot(b, st), *c)

    def m_decode(self, b, args, kw, st, node):
        if b.op == 'asciibytes':
            return b.args[0]
        return self.codec_method(tm.decode, b, args, kw, st)

    def m_startswith(self, b, args, kw, st, node):
        r = self.const_method(b, 'startswith', args, kw, st)
        if r is None and len(args) == 1 and not kw and is_const(args[0]) and \
                isinstance(cval(args[0]), bytes):
            h = const_head(self.bytes_of(b, st))
            if len(h) >= len(cval(args[0])):
                return const(h.startswith(cval(args[0])))
        return r

    def padded(self, b, args, kw, st, left):
        b = self.bytes_of(b, st)
        if kw or not 1 <= len(args) <= 2 or tm.type_of(b) != 'bytes' or \
                not is_int_const(args[0]):
            return None
        fill = const(b' ') if len(args) == 1 else self.bytes_of(args[1], st)
        n = tm.length(b)
        if not is_int_const(n) or not is_const(fill) or \
                len(cval(fill)) != 1:
            return None
        k = cval(args[0]) - cval(n)
        p = [('k', cval(fill) * k)] if k > 0 else []
        return tm.bseq(p + [('c', b)] if left else [('c', b)] + p)

    def m_rjust(self, b, args, kw, st, node):
        return self.const_method(b, 'rjust', args, kw, st) or \
            self.padded(b, args, kw, st, True)

    def m_ljust(self, b, args, kw, st, node):
        return self.const_method(b, 'ljust', args, kw, st) or \
            self.padded(b, args, kw, st, False)

    def m_zfill(self, b, args, kw, st, node):
        return self.const_method(b, 'zfill', args, kw, st)

    def m_find(self, b, args, kw, st, node):
        r = self.const_method(b, 'find', args, kw, st)
        if r is None and 1 <= len(args) <= 2 and not kw and all(
                is_const(a) for a in args) and \
                isinstance(cval(args[0]), bytes) and cval(args[0]):
            start = cval(args[1]) if len(args) == 2 else 0
            if isinstance(start, int) and start >= 0:
                i = const_head(self.bytes_of(b, st)).find(
                    cval(args[0]), start)
                if i >= 0:
                    return const(i)
        return r

    def m_endswith(self, b, args, kw, st, node):
        return self.const_method(b, 'endswith', args, kw, st)

    def m_lower(self, b, args, kw, st, node):
        return self.const_method(b, 'lower', args, kw, st)

    def m_strip(self, b, args, kw, st, node):
        return self.const_method(b, 'strip', args, kw, st)

    def m_split(self, b, args, kw, st, node):
        return self.const_method(b, 'split', args, kw, st)

    def m_replace(self, b, args, kw, st, node):
        return self.const_method(b, 'replace', args, kw, st)

    def m_bit_length(self, b, args, kw, st, node):
        if is_int_const(b):
            return const(int(cval(b)).bit_length())
        if b.op == 'exactint':
            return const(b.args[1])
        return mk('bitlen', b)

    def m_to_bytes(self, b, args, kw, st, node):
        kwd = dict(kw)
        n = args[0] if args else kwd.get('length')
        order = args[1] if len(args) > 1 else kwd.get('byteorder')
        if n is not None and order is not None and is_const(order) and \
                cval(order) == 'big':
            if is_int_const(n):
                return tm.bseq([('be', int(cval(n)), b)])
            return mk('beenc', n, b)
        return None

    # ------------------------------------------------ public-key objects
    def m_size(self, b, args, kw, st, node):
        f = pk_fields(b)
        if f is not None and not args:
            n = f.get('n', f.get('p'))
            if n is not None:
                return tm.sub(self.m_bit_length(n, [], [], st, node),
                              const(1))

    def b_Crypto_Util_number_long_to_bytes(self, args, kw, st, node):
        x = args[0]
        k = args[1] if len(args) > 1 else dict(kw).get('blocksize', ZERO)
        if not is_int_const(k) or not 0 <= cval(k) < 4096:
            return None
        k = int(cval(k))
        if x.op == 'exactint':
            n = (x.args[1] + 7) // 8
            if k and n % k:
                n += k - n % k
            return tm.bseq([('be', n, x)])
        return None

    def b_Crypto_Util_number_bytes_to_long(self, args, kw, st, node):
        return self.b_int_from_bytes([args[0], const('big')], (), st, node)

    # ------------------------------------------------ heap-object methods
    def call_extmeth(self, b, name, args, kw, st, node):
        o = st.heap[b.args[0]]
        h = self.intr.get('.' + name)
        if h is not None:
            r = h(self, b, args, kw, st, node)
            if r is not NotImplemented:
                self.event('call', '.' + name, tuple(args), tuple(kw), st,
                           node, r, base=b)
                return r
        if o.kind in ('list', 'set', 'dict', 'bytes'):
            return self.container_method(b, o, name, args, kw, st, node)
        if o.kind == 'hash':
            if name == 'update':
                v = args[0]
                w = st.w(b.args[0])
                w.parts = tuple(tm.norm_parts(
                    list(w.parts) + self.byte_parts(v, st)))
                self.event('call', '.update', tuple(args), (), st, node,
                           base=b)
                return NONE
            if name == 'digest':
                return self.digest(o.ctor, tm.bseq(list(o.parts)))
            if name == 'hexdigest':
                r = self.hexlify(self.digest(o.ctor, tm.bseq(list(
                    o.parts))), st, False)
                if r is not None:
                    return r
                return mk('hexdigest', o.ctor, tm.bseq(list(o.parts)))
            if name == 'copy':
                t, n = self.new_obj(st, 'hash')
                n.ctor, n.parts = o.ctor, o.parts
                return t
            return mk('mcall', self.snapshot(b, st), name,
                      tuple(self.flat(args, st)), ())
        if o.kind == 'stream':
            return self.stream_method(b, o, name, args, kw, st, node)
        if o.kind == 'ext':
            fa = tuple(self.flat(args, st))
            fk = tuple((k, self.snapshot(v, st)) for k, v in kw)
            if name in ('encrypt', 'decrypt') and len(args) == 1 and not kw:
                r = self.cipher_stream(b, o, name, args[0], st, node)
                if r is not None:
                    return r
            r = mk('xcall', o.ctor, o.log, name, fa, fk)
            if o.ctor.args[0] == 'Crypto.Random.new' and name == 'read' and \
                    len(fa) == 1 and is_int_const(fa[0]) and \
                    cval(fa[0]) > 0 and not fk:
                k = len(o.log)
                r = tm.fixed('random%s' % ('_%d' % k if k else ''), 'bytes',
                             cval(fa[0]))
            self.event('call', '.' + name, tuple(args), fk, st, node, r,
                       base=b)
            if o.ctor.args[0] in STATELESS:
                return r
            w = st.w(b.args[0])
            w.log = w.log + ((name, fa),)
            return r
        return tm.unk('extmeth:' + name)

    def digest(self, alg, data):
        if self.fold_digests and is_const(data) and alg.op == 'alg':
            try:
                return const(hashlib.new(alg.args[0], cval(data)).digest())
            except ValueError:
                pass
        return mk('digest', alg, data)

    def cipher_stream(self, b, o, name, arg, st, node):
        """Octets through a cipher object in a feedback mode."""
        shape = stream_shape(o.ctor)
        if shape is None or any(x[0] != name for x in o.log):
            return None
        kind, unit = shape
        data = self.bytes_of(arg, st)
        if tm.type_of(data) != 'bytes':
            return None
        n = tm.length(data)
        if is_int_const(n) and cval(n) % unit:
            self.do_raise(mk('ext', 'ValueError'), st.copy(), node,
                          self.frames[-1] if self.frames else None)
            raise Dead()
        before = tm.bseq([('c', x[1][0]) for x in o.log])
        full = tm.bseq([('c', before), ('c', data)])
        r = tm.slice_(tm.strm(name, o.ctor, full), tm.length(before), NONE)
        if kind == 'openpgp' and name == 'encrypt' and not o.log:
            r = tm.bseq([('c', mk('eiv', o.ctor, block_of(o.ctor) + 2)),
                         ('c', r)])
        self.event('call', '.' + name, (arg,), (), st, node, r, base=b)
        w = st.w(b.args[0])
        w.log = w.log + ((name, (data,)),)
        return r

    def stream_method(self, b, o, name, args, kw, st, node):
        pos = o.attrs['pos']
        base = o.ctor
        if name == 'read':
            if not args:
                w = st.w(b.args[0])
                w.attrs['pos'] = tm.length(base)
                return tm.slice_(base, pos, NONE)
            n = args[0]
            w = st.w(b.args[0])
            w.attrs['pos'] = tm.add(pos, n)
            return tm.slice_(base, pos, tm.add(pos, n))
        if name == 'tell':
            return pos
        if name == 'seek':
            w = st.w(b.args[0])
            if len(args) == 1:
                w.attrs['pos'] = args[0]
            elif is_int_const(args[1]) and cval(args[1]) == 1:
                w.attrs['pos'] = tm.add(pos, args[0])
            elif is_int_const(args[1]) and cval(args[1]) == 0:
                w.attrs['pos'] = args[0]
            else:
                w.attrs['pos'] = tm.unk('seek', *args)
            return NONE
        return tm.unk('stream:' + name)

    def container_method(self, b, o, name, args, kw, st, node):
        oid = b.args[0]
        if name in MUTATORS:
            self.event('mutate', name, (b,) + tuple(
                a for a in args if isinstance(a, tm.T)), tuple(kw), st,
                node, base=b)
        if o.kind == 'bytes':
            if name == 'append':
                w = st.w(oid)
                w.parts = tuple(tm.norm_parts(list(w.parts) +
                                              [('b', args[0])]))
                return NONE
            if name == 'extend':
                self.extend_obj(oid, args[0], st)
                return NONE
            if name == 'insert' and is_int_const(args[0]) and \
                    cval(args[0]) == 0:
                w = st.w(oid)
                w.parts = tuple(tm.norm_parts([('b', args[1])] +
                                              list(w.parts)))
                return NONE
            if name == 'copy':
                t, n = self.new_obj(st, 'bytes')
                n.parts = o.parts
                return t
            if name in MUTATORS:
                self.havoc_obj(oid, st, name,
                               *[a for a in args if isinstance(a, tm.T)])
                return tm.unk('bytes.' + name)
            return self.call_mcall(tm.bseq(list(o.parts)), name, args, kw,
                                   st, node)
        if o.kind == 'dict':
            return self.dict_method(b, o, name, args, kw, st, node)
        if o.kind == 'set':
            if name == 'add':
                w = st.w(oid)
                if ('e', args[0]) not in w.parts:
                    w.parts = w.parts + (('e', args[0]),)
                return NONE
            if name in ('update',):
                for a in args:
                    self.extend_obj(oid, a, st)
                return NONE
            if name == 'union':
                t, n = self.new_obj(st, 'set')
                n.parts = tuple(o.parts)
                for a in args:
                    n.parts += tuple(self.list_parts(a, st))
                return t
            if name in ('intersection',):
                if len(args) == 1:
                    return self.intersect(b, args[0], st, node)
                return mk('setand', self.snapshot(b, st),
                          *self.flat(args, st))
            if name == 'isdisjoint' and len(args) == 1:
                return not_(self.truthy(self.intersect(b, args[0], st, node),
                                        st))
            if name in MUTATORS:
                self.havoc_obj(oid, st, name, *[
                    a for a in args if isinstance(a, tm.T)])
                return NONE
            return mk('mcall', self.snapshot(b, st), name,
                      tuple(self.flat(args, st)), ())
        # lists
        if name == 'append':
            w = st.w(oid)
            w.parts = w.parts + (('e', args[0]),)
            return NONE
        if name == 'appendleft':
            w = st.w(oid)
            w.parts = (('e', args[0]),) + w.parts
            return NONE
        if name == 'extend':
            self.extend_obj(oid, args[0], st)
            return NONE
        if name == 'insert':
            if is_int_const(args[0]) and (cval(args[0]) == 0 or all(
                    p[0] == 'e' for p in o.parts)):
                w = st.w(oid)
                ps = list(w.parts)
                ps.insert(cval(args[0]), ('e', args[1]))
                w.parts = tuple(ps)
                return NONE
            self.havoc_obj(oid, st, 'insert', *args)
            return NONE
        if name in ('pop', 'popleft'):
            first = name == 'popleft' or (
                args and is_int_const(args[0]) and cval(args[0]) == 0)
            last = name == 'pop' and (not args or (
                is_int_const(args[0]) and cval(args[0]) == -1))
            ps = list(o.parts)
            if first and ps and ps[0][0] == 'e':
                st.w(oid).parts = tuple(ps[1:])
                return ps[0][1]
            if last and ps and ps[-1][0] == 'e':
                st.w(oid).parts = tuple(ps[:-1])
                return ps[-1][1]
            if len(ps) == 1 and ps[0][0] == 's':
                base = ps[0][1]
                if first:
                    st.w(oid).parts = (('s', tm.slice_(base, const(1),
                                                       NONE)),)
                    return tm.item(base, ZERO)
                if last:
                    st.w(oid).parts = (('s', tm.slice_(base, NONE,
                                                       const(-1))),)
                    return tm.item(base, const(-1))
            snap = self.snapshot(b, st)
            if first:
                st.w(oid).parts = (('s', tm.slice_(snap, const(1), NONE)),)
                return mk('item', snap, ZERO)
            if last:
                st.w(oid).parts = (('s', tm.slice_(snap, NONE, const(-1))),)
                return mk('item', snap, const(-1))
            self.havoc_obj(oid, st, 'pop', *args)
            return mk('item', snap, args[0] if args else const(-1))
        if name == 'copy':
            t, n = self.new_obj(st, 'list')
            n.parts = o.parts
            return t
        if name == 'remove' and len(args) == 1 and all(
                p[0] == 'e' for p in o.parts):
            for i, p in enumerate(o.parts):
                same = self.decide(self.equal(p[1], args[0], st, node), st)
                if same is None:
                    break
                if same:
                    st.w(oid).parts = o.parts[:i] + o.parts[i + 1:]
                    return NONE
            else:
                self.do_raise(mk('ext', 'ValueError'), st.copy(), node,
                              self.frames[-1] if self.frames else None)
                raise Dead()
        if name in ('sort', 'reverse', 'remove', 'clear'):
            if name == 'clear':
                st.w(oid).parts = ()
                return NONE
            if name == 'reverse' and all(p[0] == 'e' for p in o.parts):
                st.w(oid).parts = tuple(reversed(o.parts))
                return NONE
            self.havoc_obj(oid, st, name, *[a for a in args
                                            if isinstance(a, tm.T)])
            return NONE
        snap = self.snapshot(b, st)
        fa = tuple(self.flat(args, st))
        if name not in READERS:
            self.havoc_obj(oid, st, name, *fa)
        return mk('mcall', snap, name, fa, ())

    def lend(self, args, kw, st):
        """Unknown code may change the containers it is given."""
        for a in list(args) + [v for _, v in kw]:
            if isinstance(a, tuple):
                a = a[1]
            if a.op != 'obj':
                continue
            o = st.heap[a.args[0]]
            if o.kind in ('list', 'set'):
                self.havoc_obj(a.args[0], st, 'lent')
            elif o.kind == 'dict':
                snap = self.snapshot(a, st)
                o = st.w(a.args[0])
                o.entries = {}
                o.more = tm.unk('lent', snap)

    def dict_method(self, b, o, name, args, kw, st, node):
        oid = b.args[0]
        if name == 'get':
            return self.dict_get(b, self.simp(args[0], st),
                                 args[1] if len(args) > 1 else NONE, st,
                                 node)
        if name in ('items', 'iteritems'):
            if o.more is None:
                return self.new_list(st, [mk('tuple', k, v)
                                          for k, v in o.entries.items()])
            return mk('mcall', self.snapshot(b, st), 'items', (), ())
        if name in ('keys', 'iterkeys'):
            if o.more is None:
                return self.new_list(st, list(o.entries))
            return mk('keys', self.snapshot(b, st))
        if name in ('values', 'itervalues'):
            if o.more is None:
                return self.new_list(st, list(o.entries.values()))
            return mk('mcall', self.snapshot(b, st), 'values', (), ())
        if name == 'setdefault':
            v = self.dict_get(b, args[0], mk('absent'), st, node)
            d = args[1] if len(args) > 1 else NONE
            if v.op == 'absent':
                st.w(oid).entries[args[0]] = d
                return d
            return v
        if name == 'update':
            w = st.w(oid)
            for a in args:
                if isinstance(a, tm.T) and a.op == 'obj' and \
                        st.heap[a.args[0]].kind == 'dict':
                    src = st.heap[a.args[0]]
                    w.entries.update(src.entries)
                    if src.more is not None:
                        w.more = src.more
                elif isinstance(a, tm.T):
                    w.more = self.snapshot(a, st)
            for k, v in kw:
                if k is not None:
                    w.entries[const(k)] = v
            return NONE
        if name == 'pop':
            v = self.dict_get(b, args[0],
                              args[1] if len(args) > 1 else mk('absent'),
                              st, node)
            w = st.w(oid)
            w.entries.pop(args[0], None)
            return v
        if name == 'copy':
            t, n = self.new_obj(st, 'dict')
            n.entries = dict(o.entries)
            n.more = o.more
            return t
        if name in MUTATORS:
            w = st.w(oid)
            w.more = tm.unk('dict.' + name)
            return tm.unk('dict.' + name)
        return mk('mcall', self.snapshot(b, st), name,
                  tuple(self.flat(args, st)), ())

    # --------------------------------------------------- external functions
    def call_ext(self, name, args, kw, st, node):
        h = self.intr.get(name)
        if h is not None:
            r = h(self, name, args, kw, st, node)
            if r is not NotImplemented:
                self.event('call', name, tuple(args), tuple(kw), st, node, r)
                return r
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None and not any(isinstance(a, tuple) for a in args):
            r = m(args, kw, st, node)
            if r is not None:
                self.event('call', name, tuple(args), tuple(kw), st, node, r)
                return r
        if is_hash_ctor(name):
            t, o = self.new_obj(st, 'hash')
            o.ctor = mk('alg', hash_alg(name, args))
            if name == 'hashlib.new':
                args = args[1:]
            if args:
                o.parts = tuple(tm.norm_parts(self.byte_parts(args[0], st)))
            self.event('call', name, tuple(args), tuple(kw), st, node, t)
            return t
        if name in EXC_PARENT:
            t = mk('call', name, tuple(self.flat(args, st)), ())
            return t
        fa = tuple(self.flat(args, st))
        fk = tuple((k, self.snapshot(v, st)) for k, v in kw)
        if name in PK_FIELDS:
            fa = tuple(map(as_tuple, fa))
        if name == 'io.BytesIO' and len(args) <= 1 and not kw:
            t, o = self.new_obj(st, 'stream')
            o.ctor = self.bytes_of(args[0], st) if args else const(b'')
            o.attrs['pos'] = ZERO
            self.event('call', name, tuple(args), fk, st, node, t)
            return t
        if name.endswith('.new') or name in STATEFUL_EXT:
            t, o = self.new_obj(st, 'ext')
            o.ctor = cipher_args(name, fa, fk) if name in CIPHERS else \
                mk('call', name, fa, fk)
            self.event('call', name, tuple(args), fk, st, node, t)
            return t
        if name in FRESH_EXT:
            self.oid += 1
            r = mk('call', name, fa, fk + (('#', const(self.oid)),))
        else:
            r = mk('call', name, fa, fk)
        self.event('call', name, tuple(args), fk, st, node, r)
        return r

    def b_len(self, args, kw, st, node):
        v = self.simp(args[0], st)
        if v.op == 'obj':
            o = st.heap[v.args[0]]
            if o.kind == 'bytes':
                return tm.length(tm.bseq(list(o.parts)))
            if o.kind in ('list', 'set'):
                if all(p[0] == 'e' for p in o.parts) and o.kind == 'list':
                    return const(len(o.parts))
                if len(o.parts) == 1 and o.parts[0][0] == 's':
                    return mk('len', o.parts[0][1])
                return mk('len', self.snapshot(v, st))
            if o.kind == 'dict' and o.more is None:
                return const(len(o.entries))
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__len__')
                if m is not None:
                    return self.call(mk('bound', v, m), [], [], st, node)
            return mk('len', self.snapshot(v, st))
        return tm.length(v)

    def b_bytes(self, args, kw, st, node):
        if not args:
            return const(b'')
        if is_const(args[0]) and isinstance(cval(args[0]), str):
            return const(cval(args[0]).encode('utf8'))
        return self.to_bytes(args[0], st, node)

    def b_bytearray(self, args, kw, st, node):
        v = const(b'') if not args else (
            self.to_bytes(args[0], st, node))
        t, o = self.new_obj(st, 'bytes')
        o.parts = tuple(tm.part_of(v))
        return t

    def b_int(self, args, kw, st, node):
        if len(args) == 1:
            v = self.simp(args[0], st)
            ty = tm.type_of(v)
            if ty == 'int':
                return v
            if v.op == 'float' and tm.type_of(v.args[0]) == 'int':
                return v.args[0]
            if is_const(v):
                try:
                    return const(int(cval(v)))
                except Exception:
                    return None
            b = as_bitlen(v)
            if b is not None:
                return b
            if v.op == 'phi':
                return phi(v.args[0], self.b_int([v.args[1]], kw, st, node)
                           or mk('call', 'int', (v.args[1],), ()),
                           self.b_int([v.args[2]], kw, st, node)
                           or mk('call', 'int', (v.args[2],), ()))
            return mk('call', 'int', (self.snapshot(v, st),), ())
        if len(args) == 2 and is_const(args[0]) and is_const(args[1]):
            try:
                return const(int(cval(args[0]), cval(args[1])))
            except Exception:
                return None
        if len(args) == 2 and is_int_const(args[1]) and \
                cval(args[1]) == 16:
            return unhex(self.snapshot(args[0], st))
        return None

    b_long = b_int

    def b_ord(self, args, kw, st, node):
        v = self.simp(args[0], st)
        if is_const(v):
            try:
                return const(ord(cval(v)))
            except Exception:
                return None
        if tm.type_of(v) == 'bytes':
            return tm.item(v, ZERO)
        return None

    def b_bool(self, args, kw, st, node):
        if not args:
            return FALSE
        return self.truthy(args[0], st)

    def drain(self, it, st, node):
        """The elements of an object with a __next__ method, as a tuple;
        anything else as it is."""
        it = self.simp(it, st)
        nx = self.iterator_of(it, st, node)
        if nx is None:
            return it
        out = []
        for step, _ in nx:
            v = step(st)
            if v is None:
                break
            out.append(v)
        return mk('tuple', *out)

    def b_next(self, args, kw, st, node):
        if not args:
            return None
        v = self.simp(args[0], st)
        if v.op == 'obj' and len(args) == 1 and \
                st.heap[v.args[0]].kind == 'inst' and self.class_lookup(
                    st.heap[v.args[0]].cls, '__next__') is not None:
            return self.call_method(v, '__next__', [], [], st, node)
        if v.op == 'obj' and st.heap[v.args[0]].kind == 'list':
            o = st.w(v.args[0])
            if o.parts and o.parts[0][0] == 'e':
                x = o.parts[0][1]
                o.parts = tuple(o.parts[1:])
                return x
            if not o.parts:
                if len(args) > 1:
                    return args[1]
                self.do_raise(mk('ext', 'StopIteration'), st.copy(), node,
                              self.frames[-1] if self.frames else None)
                raise Dead()
        return None

    def b_list(self, args, kw, st, node):
        if args:
            args = [self.drain(args[0], st, node)] + list(args[1:])
        t, o = self.new_obj(st, 'list')
        if args:
            o.parts = tuple(self.list_parts(args[0], st))
        return t

    b_collections_deque = b_list

    def b_iter(self, args, kw, st, node):
        if len(args) == 1:
            v = self.simp(args[0], st)
            if v.op in ('tuple', 'listv') or v.op == 'obj' and \
                    st.heap[v.args[0]].kind == 'list':
                t, o = self.new_obj(st, 'list')
                o.parts = tuple(self.list_parts(v, st))
                self.iters.add(t.args[0])
                return t
            return args[0]

    def b_tuple(self, args, kw, st, node):
        if not args:
            return mk('tuple')
        args = [self.drain(args[0], st, node)]
        items = self.concrete_items(self.simp(args[0], st), st)
        if items is not None:
            return mk('tuple', *items)
        ps = self.list_parts(args[0], st)
        return mk('listv', *ps)

    def b_set(self, args, kw, st, node):
        t, o = self.new_obj(st, 'set')
        if args:
            o.parts = tuple(self.list_parts(args[0], st))
        return t

    b_frozenset = b_set

    def b_dict(self, args, kw, st, node):
        t, o = self.new_obj(st, 'dict')
        for a in args:
            if a.op == 'obj' and st.heap[a.args[0]].kind == 'dict':
                o.entries.update(st.heap[a.args[0]].entries)
                o.more = st.heap[a.args[0]].more
            else:
                items = self.concrete_items(a, st)
                if items is not None and all(i.op == 'tuple' and
                                             len(i.args) == 2
                                             for i in items):
                    for i in items:
                        o.entries[i.args[0]] = i.args[1]
                else:
                    o.more = self.snapshot(a, st)
        for k, v in kw:
            if k is not None:
                o.entries[const(k)] = v
            else:
                o.more = v
        return t

    b_collections_OrderedDict = b_dict

    def b_range(self, args, kw, st, node):
        return mk('call', 'range', tuple(args), ())

    b_xrange = b_range

    def b_map(self, args, kw, st, node):
        fn = args[0]
        if len(args) != 2:
            return None
        it = self.simp(args[1], st)
        items = self.concrete_items(it, st)
        t, o = self.new_obj(st, 'list')
        oid = t.args[0]
        if items is not None:
            vals = [self.call(fn, [x], [], st, node) for x in items]
            st.w(oid).parts = tuple(('e', v) for v in vals)
            return t

        def conv(ps):
            out = []
            for p in ps:
                if p[0] == 'e':
                    out.append(('e', self.call(fn, [p[1]], [], st, node)))
                elif p[0] == 's':
                    el = mk('each', p[1], self.loop_depth(p[1]))
                    self.loopstack.append({'id': -1, 'over': p[1],
                                           'elem': el})
                    try:
                        v = self.call(fn, [el], [], st, node)
                    finally:
                        self.loopstack.pop()
                    out.append(('rep', p[1], (('e', v),)))
                elif p[0] == 'rep':
                    out.append(('rep', p[1], tuple(conv(p[2]))))
                elif p[0] == 'alt':
                    out.append(('alt', p[1], tuple(conv(p[2])),
                                tuple(conv(p[3]))))
                else:
                    out.append(p)
            return out
        ps = conv(self.list_parts(it, st))
        st.w(oid).parts = tuple(ps)
        return t

    def b_filter(self, args, kw, st, node):
        return None

    def b_sum(self, args, kw, st, node):
        if len(args) == 1 or len(args) == 2 and args[1] is ZERO:
            items = self.concrete_items(args[0], st)
            if items is not None and len(items) < 64 and all(
                    tm.type_of(x) == 'int' for x in items):
                r = ZERO
                for x in items:
                    r = tm.add(r, x)
                return r
            return mk('bytesum', self.snapshot(args[0], st))

    def b_min(self, args, kw, st, node):
        if len(args) > 1 and all(is_const(a) for a in args):
            return const(min(cval(a) for a in args))
        if len(args) == 2:
            c = cmp_('<=', args[0], args[1])
            return phi(c, args[0], args[1])

    def b_max(self, args, kw, st, node):
        if len(args) > 1 and all(is_const(a) for a in args):
            return const(max(cval(a) for a in args))
        if len(args) == 2:
            c = cmp_('>=', args[0], args[1])
            return phi(c, args[0], args[1])

    def b_any(self, args, kw, st, node):
        return self.anyall(args, st, True)

    def b_all(self, args, kw, st, node):
        return self.anyall(args, st, False)

    def anyall(self, args, st, isany):
        items = self.concrete_items(args[0], st)
        if items is not None:
            ts = [self.truthy(x, st) for x in items]
            return or_(*ts) if isany else and_(*ts)
        out = []

        def conv(ps, guard):
            for p in ps:
                if p[0] == 'e':
                    c = self.truthy(p[1], st)
                    if isany:
                        out.append(and_(*(guard + [c])))
                    else:
                        out.append(or_(*([not_(g) for g in guard] + [c])))
                elif p[0] == 'rep':
                    n = len(out)
                    conv(p[2], guard)
                    inner = out[n:]
                    del out[n:]
                    for c in inner:
                        out.append(mk('exists', c) if isany else
                                   mk('forall', p[1], c))
                elif p[0] == 'alt':
                    conv(p[2], guard + [p[1]])
                    conv(p[3], guard + [not_(p[1])])
                elif p[0] == 's':
                    e = bool_(mk('each', p[1], 0))
                    out.append(mk('exists', e) if isany else
                               mk('forall', p[1], e))
        conv(self.list_parts(args[0], st), [])
        return or_(*out) if isany else and_(*out)

    def b_divmod(self, args, kw, st, node):
        if len(args) == 2:
            return mk('tuple',
                      self.binop(ast.FloorDiv(), args[0], args[1], st, node),
                      self.binop(ast.Mod(), args[0], args[1], st, node))

    def b_isinstance(self, args, kw, st, node):
        v = self.simp(args[0], st)
        t = args[1]
        types = self.concrete_items(t, st) or [t]
        return or_(*[self.isinst(v, x, st) for x in types])

    def isinst(self, v, t, st):
        t = self.delazy(t, st)
        if v.op == 'phi':
            return tm.cond_phi(v.args[0], self.isinst(v.args[1], t, st),
                               self.isinst(v.args[2], t, st))
        if v.op == 'obj':
            o = st.heap[v.args[0]]
            if o.kind == 'inst':
                if t.op == 'class':
                    return const(self.is_subclass(o.cls, t.args[0]))
                if t.op == 'ext':
                    if t.args[0] in ('str', 'bytes', 'int', 'list', 'tuple',
                                     'dict', 'bytearray', 'set'):
                        return FALSE
                    return const(t.args[0] in self.mro(o.cls))
            kinds = {'bytes': ('bytearray',), 'list': ('list',),
                     'dict': ('dict',), 'set': ('set',)}
            if o.kind in kinds and t.op == 'ext':
                return const(t.args[0] in kinds[o.kind])
            if o.kind in kinds and t.op == 'class':
                return FALSE
        if v.op in ('dt', 'td') and t.op == 'ext' and str(
                t.args[0]).startswith('datetime.'):
            return const(t.args[0] in {
                'dt': ('datetime.datetime', 'datetime.date'),
                'td': ('datetime.timedelta',)}[v.op])
        ty = tm.type_of(v)
        if t.op == 'ext' and t.args[0] in ('str', 'bytes', 'int', 'bytearray',
                                           'bool', 'list', 'tuple', 'dict',
                                           'float'):
            if ty == 'bytes':
                if t.args[0] in ('bytes',):
                    if v.op in ('bseq',) or is_const(v):
                        return TRUE
                elif t.args[0] != 'bytearray':
                    return FALSE
            elif ty is not None:
                m = {'str': 'str', 'int': 'int', 'bool': 'bool',
                     'none': None, 'tuple': 'tuple', 'float': 'float'}
                if ty == 'bool' and t.args[0] == 'int':
                    return TRUE
                return const(m.get(ty) == t.args[0])
        elif ty is not None and (t.op == 'class' or (
                t.op == 'ext' and str(t.args[0]).startswith(
                    ('datetime.', 'Crypto.', 'pathlib.')))):
            return FALSE
        name = t.args[0] if t.op in ('class', 'ext') else t
        return mk('isinst', v, name)

    def b_issubclass(self, args, kw, st, node):
        a, b = args[0], args[1]
        if a.op == 'class' and b.op == 'class':
            return const(self.is_subclass(a.args[0], b.args[0]))

    def b_type(self, args, kw, st, node):
        if len(args) == 1:
            v = args[0]
            if v.op == 'obj' and st.heap[v.args[0]].kind == 'inst':
                return mk('class', st.heap[v.args[0]].cls)
            return mk('call', 'type', (self.snapshot(v, st),), ())

    def b_getattr(self, args, kw, st, node):
        if len(args) >= 2 and is_const(args[1]) and isinstance(
                cval(args[1]), str):
            b = self.simp(args[0], st)
            d = args[2] if len(args) > 2 else None
            if b is NONE and d is not None:
                return d
            if b.op == 'phi':
                return self.split_state(
                    b.args[0], st,
                    lambda s, x: self.b_getattr([x] + list(args[1:]), kw, s,
                                                node),
                    b.args[1], b.args[2])
            r = self.get_attr(b, cval(args[1]), st, node, d)
            if d is not None and r.op == 'attr' and b.op != 'obj':
                return mk('getattr', b, args[1], d)
            return r

    def b_hasattr(self, args, kw, st, node):
        b = args[0]
        if b.op == 'obj' and is_const(args[1]):
            o = st.heap[b.args[0]]
            n = cval(args[1])
            if o.kind == 'inst':
                if n in o.attrs or self.class_lookup(o.cls, n) is not None:
                    return TRUE
                if not o.open and \
                        self.class_lookup(o.cls, '__getattr__') is None and \
                        all(m in self.classes or m == 'object'
                            for m in self.mro(o.cls)):
                    return FALSE
            if o.kind == 'ext' and o.ctor.op == 'call':
                m = EXT_METHODS.get(o.ctor.args[0])
                if m is not None and not str(n).startswith('_'):
                    return const(n in m)
        return mk('call', 'hasattr', tuple(self.flat(args, st)), ())

    def b_setattr(self, args, kw, st, node):
        if is_const(args[1]):
            b = self.simp(args[0], st)
            self.set_attr(b, cval(args[1]), args[2], st, node)
            return NONE

    def b_property(self, args, kw, st, node):
        kwd = dict(kw)
        g = args[0] if args else kwd.get('fget', NONE)
        s = args[1] if len(args) > 1 else kwd.get('fset', NONE)
        return mk('prop', g, s)

    def b_staticmethod(self, args, kw, st, node):
        return mk('static', args[0])

    def b_classmethod(self, args, kw, st, node):
        return mk('classm', args[0])

    def b_str(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]) and not isinstance(
                cval(args[0]), bytes):
            return const(str(cval(args[0])))
        if len(args) == 1 and not kw:
            v = self.simp(args[0], st)
            if v.op == 'obj' and st.heap[v.args[0]].kind == 'inst':
                m = self.class_lookup(st.heap[v.args[0]].cls, '__str__')
                if m is not None and m.op == 'func':
                    return self.call(mk('bound', v, m), [], [], st, node)
            if v.op == 'strcat' or tm.type_of(v) == 'str':
                return v

    # addresses
    def url_call(self, name, args, kw, st):
        from urllib import parse
        vals = []
        for a in args:
            x = self.snapshot(a, st)
            if x.op == 'listv' and all(p[0] == 'e' for p in x.args):
                x = mk('tuple', *[p[1] for p in x.args])
            if is_const(x):
                vals.append(cval(x))
            elif x.op == 'tuple' and all(map(is_const, x.args)):
                vals.append(tuple(map(cval, x.args)))
            else:
                return None
        if not all(is_const(v) for _, v in kw):
            return None
        try:
            r = getattr(parse, name)(*vals, **{k: cval(v) for k, v in kw})
        except Exception:
            return None
        if isinstance(r, tuple):
            return mk('tuple', *map(const, r))
        return const(r) if isinstance(r, (str, bytes)) else None

    def path_function(name):
        def f(self, args, kw, st, node):
            if not kw and args and all(is_const(a) and isinstance(
                    cval(a), str) for a in args):
                if name in ('abspath', 'realpath') and not cval(
                        args[0]).startswith('/'):
                    return None
                r = getattr(posixpath, name)(*[cval(a) for a in args])
                if isinstance(r, tuple):
                    return mk('tuple', *map(const, r))
                return const(r)
            return None
        return f
    for _n in ('dirname', 'basename', 'join', 'abspath', 'realpath',
               'normpath', 'split', 'splitext', 'isabs'):
        locals()['b_os_path_' + _n] = path_function(_n)
    del _n

    def b_urllib_parse_urlparse(self, args, kw, st, node):
        return self.url_call('urlparse', args, kw, st)

    def b_urllib_parse_urlsplit(self, args, kw, st, node):
        return self.url_call('urlsplit', args, kw, st)

    def b_urllib_parse_urlunparse(self, args, kw, st, node):
        return self.url_call('urlunparse', args, kw, st)

    def b_urllib_parse_urlunsplit(self, args, kw, st, node):
        return self.url_call('urlunsplit', args, kw, st)

    def b_urllib_parse_urljoin(self, args, kw, st, node):
        return self.url_call('urljoin', args, kw, st)

    def b_urllib_parse_quote(self, args, kw, st, node):
        return self.url_call('quote', args, kw, st)

    def b_urllib_parse_quote_plus(self, args, kw, st, node):
        return self.url_call('quote_plus', args, kw, st)

    def b_urllib_parse_unquote(self, args, kw, st, node):
        return self.url_call('unquote', args, kw, st)

    def m_geturl(self, b, args, kw, st, node):
        r = url_parts(b)
        return const(r.geturl()) if r is not None else None

    def m__replace(self, b, args, kw, st, node):
        r = url_parts(b)
        if r is None or not all(is_const(v) for _, v in kw):
            return None
        return mk('tuple', *map(const, r._replace(**{
            k: cval(v) for k, v in kw})))

    # encodings of constants
    def coded(self, name, args, kw, st):
        import base64
        import binascii
        f = {'b64encode': base64.b64encode, 'b64decode': base64.b64decode,
             'standard_b64encode': base64.b64encode,
             'standard_b64decode': base64.b64decode,
             'a2b_base64': binascii.a2b_base64,
             'b2a_base64': binascii.b2a_base64}[name]
        a = [self.bytes_of(x, st) for x in args]
        k = {n: v for n, v in kw}
        if all(map(is_const, a)) and all(map(is_const, k.values())):
            try:
                return const(f(*map(cval, a), **{n: cval(v) for n, v in
                                                 k.items()}))
            except binascii.Error:
                self.do_raise(mk('ext', 'binascii.Error'), st.copy(), None,
                              self.frames[-1] if self.frames else None)
                raise Dead()
            except Exception:
                return None

    def b_base64_b64encode(self, args, kw, st, node):
        return self.coded('b64encode', args, kw, st)

    def b_base64_b64decode(self, args, kw, st, node):
        return self.coded('b64decode', args, kw, st)

    b_base64_standard_b64encode = b_base64_b64encode
    b_base64_standard_b64decode = b_base64_b64decode

    def b_binascii_a2b_base64(self, args, kw, st, node):
        return self.coded('a2b_base64', args, kw, st)

    def b_binascii_b2a_base64(self, args, kw, st, node):
        return self.coded('b2a_base64', args, kw, st)

    def b_float(self, args, kw, st, node):
        if len(args) == 1:
            v = args[0]
            if is_const(v):
                try:
                    return const(float(cval(v)))
                except Exception:
                    return None
            return mk('float', v)

    # Times.  A local time is identified with its Unix time: the offset from
    # UTC is assumed constant (documented assumption of every check).
    def b_datetime_datetime_fromtimestamp(self, args, kw, st, node):
        if len(args) == 1 and not kw:
            v = self.simp(args[0], st)
            if v.op == 'float':
                v = v.args[0]
            if tm.type_of(v) == 'int':
                return mk('dt', v)

    def b_datetime_datetime(self, args, kw, st, node):
        if not kw and len(args) >= 3 and all(is_int_const(x) for x in args):
            import calendar
            v = [cval(x) for x in args] + [0] * 6
            try:
                return mk('dt', const(calendar.timegm(tuple(v[:6]))))
            except Exception:
                return None

    def b_datetime_datetime_now(self, args, kw, st, node):
        if not args and not kw:
            self.oid += 1
            return mk('dt', mk('call', 'now', (), (('#', const(self.oid)),)))

    def b_datetime_timedelta(self, args, kw, st, node):
        unit = {'days': 86400, 'seconds': 1, 'hours': 3600, 'minutes': 60,
                'weeks': 604800}
        names = ['days', 'seconds', 'microseconds', 'milliseconds']
        total = ZERO
        for k, v in list(zip(names, args)) + list(kw):
            if k not in unit:
                return None
            v = self.simp(v, st)
            if tm.type_of(v) != 'int':
                return None
            total = tm.add(total, tm.mul(v, const(unit[k])))
        return mk('td', total)

    def b_time_mktime(self, args, kw, st, node):
        v = self.simp(args[0], st)
        if v.op == 'ttuple':
            return mk('float', v.args[0])

    def time_binop(self, n, a, b):
        k = (a.op, b.op)
        f = {'Add': tm.add, 'Sub': tm.sub}.get(n)
        if f is None:
            return None
        if k == ('dt', 'td'):
            return mk('dt', f(a.args[0], b.args[0]))
        if k == ('td', 'dt') and n == 'Add':
            return mk('dt', tm.add(a.args[0], b.args[0]))
        if k == ('td', 'td'):
            return mk('td', f(a.args[0], b.args[0]))
        if k == ('dt', 'dt') and n == 'Sub':
            return mk('td', tm.sub(a.args[0], b.args[0]))

    def m_timetuple(self, b, args, kw, st, node):
        if b.op == 'dt' and not args:
            return mk('ttuple', b.args[0])

    def m_timestamp(self, b, args, kw, st, node):
        if b.op == 'dt' and not args:
            return mk('float', b.args[0])

    def m_total_seconds(self, b, args, kw, st, node):
        if b.op == 'td' and not args:
            return mk('float', b.args[0])

    def b_math_log(self, args, kw, st, node):
        if all(is_const(x) for x in args):
            try:
                return const(math.log(*[cval(x) for x in args]))
            except Exception:
                pass
        return mk('log', *args)

    def b_math_floor(self, args, kw, st, node):
        if is_const(args[0]):
            return const(math.floor(cval(args[0])))
        return mk('floor', args[0])

    def b_math_ceil(self, args, kw, st, node):
        v = args[0]
        if is_const(v):
            return const(math.ceil(cval(v)))
        # ceil(x / 8.0) on integers
        if v.op == 'bin' and v.args[0] == 'Div' and is_const(v.args[2]) and \
                cval(v.args[2]) == 8:
            return tm.bits(tm.add(v.args[1], const(7)), 3, None)
        return mk('ceil', v)

    def b_sorted(self, args, kw, st, node):
        items = self.concrete_items(args[0], st)
        if items is not None and not kw and all(map(is_const, items)):
            try:
                return self.new_list(st, [const(x) for x in sorted(
                    cval(x) for x in items)])
            except TypeError:
                pass
        return mk('call', 'sorted', tuple(self.flat(args, st)),
                  tuple((k, self.snapshot(v, st)) for k, v in kw))

    def b_enumerate(self, args, kw, st, node):
        items = self.concrete_items(args[0], st)
        if items is not None:
            s0 = cval(args[1]) if len(args) > 1 and is_int_const(
                args[1]) else 0
            return self.new_list(st, [mk('tuple', const(i + s0), x)
                                      for i, x in enumerate(items)])
        return mk('call', 'enumerate', tuple(args), ())

    def b_zip(self, args, kw, st, node):
        if any(isinstance(a, tm.T) and a.op == 'obj' and
               a.args[0] in self.iters for a in args):
            raise Budget('iterator')
        its = [self.concrete_items(x, st) for x in args]
        if its and all(i is not None for i in its):
            return self.new_list(st, [mk('tuple', *z) for z in zip(*its)])
        return mk('call', 'zip', tuple(self.flat(args, st)), ())

    def b_reversed(self, args, kw, st, node):
        items = self.concrete_items(args[0], st)
        if items is not None:
            return self.new_list(st, items[::-1])
        return mk('call', 'reversed', tuple(self.flat(args, st)), ())

    def b_struct_pack(self, args, kw, st, node):
        import struct
        if not args or not is_const(args[0]):
            return None
        f = cval(args[0])
        f = f.decode() if isinstance(f, bytes) else f
        if f[:1] not in ('>', '!'):
            return None
        out = []
        sizes = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
        codes = list(f[1:])
        if len(codes) != len(args) - 1 or any(c not in sizes for c in codes):
            return None
        for c, v in zip(codes, args[1:]):
            out.append(('be', sizes[c], v))
        return tm.bseq(out)

    def b_struct_unpack(self, args, kw, st, node):
        if not is_const(args[0]):
            return None
        f = cval(args[0])
        f = f.decode() if isinstance(f, bytes) else f
        sizes = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}
        if f[:1] not in ('>', '!') or any(c not in sizes for c in f[1:]):
            return None
        v = self.bytes_of(args[1], st)
        off = 0
        out = []
        for c in f[1:]:
            out.append(be_read(v, off, sizes[c]))
            off += sizes[c]
        return mk('tuple', *out)

    def b_int_from_bytes(self, args, kw, st, node):
        kwd = dict(kw)
        order = args[1] if len(args) > 1 else kwd.get('byteorder')
        if order is None or not is_const(order) or cval(order) != 'big':
            return None
        v = self.bytes_of(args[0], st)
        v = self.to_bytes(args[0], st, node)
        n = tm.length(v)
        if is_int_const(n):
            return be_read(v, 0, int(cval(n)))
        return mk('bedec', v)

    def b_collections_namedtuple(self, args, kw, st, node):
        return None

    def b_functools_partial(self, args, kw, st, node):
        if not args or any(k is None for k, _ in kw):
            return None
        return mk('partial', args[0], tuple(args[1:]), tuple(kw))

    def b_dict_fromkeys(self, args, kw, st, node):
        items = self.concrete_items(self.simp(args[0], st), st) \
            if args and not kw else None
        if items is None:
            return None
        t, o = self.new_obj(st, 'dict')
        for i in items:
            o.entries[i] = args[1] if len(args) > 1 else NONE
        return t

    def b_itertools_chain(self, args, kw, st, node):
        t, o = self.new_obj(st, 'list')
        parts = []
        for a in args:
            parts += self.list_parts(self.drain(a, st, node), st)
        st.w(t.args[0]).parts = tuple(parts)
        return t

    def b_itertools_chain_from_iterable(self, args, kw, st, node):
        items = self.concrete_items(self.simp(
            self.drain(args[0], st, node), st), st)
        if items is None:
            return None
        return self.b_itertools_chain(items, kw, st, node)

    def b_functools_reduce(self, args, kw, st, node):
        if kw or len(args) < 2 or self.simp(args[0], st).op == 'ext':
            return None
        items = self.concrete_items(self.simp(
            self.drain(args[1], st, node), st), st)
        if items is None or len(args) == 2 and not items:
            return None
        acc, items = (args[2], items) if len(args) > 2 else (
            items[0], items[1:])
        for i in items:
            acc = self.call(args[0], [acc, i], [], st, node)
        return acc

    def b_bin(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]):
            return const(bin(cval(args[0])))
        return mk('binof', args[0])

    def b_hex(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]):
            return const(hex(cval(args[0])))

    def unhexlify(self, v, st):
        n = tm.length(v)
        if tm.type_of(v) != 'str' and not is_const(v):
            return None
        if is_int_const(n) and cval(n) % 2 == 0 and cval(n) <= 512:
            out = []
            for i in range(0, cval(n), 2):
                x = tm.slice_(v, const(i), const(i + 2))
                if is_const(x):
                    out.append(('k', bytes([int(cval(x), 16)])))
                else:
                    out.append(('b', unhex(x)))
            return tm.bseq(out)

    def b_binascii_unhexlify(self, args, kw, st, node):
        return self.unhexlify(args[0], st)

    b_binascii_a2b_hex = b_binascii_unhexlify

    def b_bytes_fromhex(self, args, kw, st, node):
        return self.unhexlify(args[0], st)

    def b_bytearray_fromhex(self, args, kw, st, node):
        v = self.unhexlify(args[0], st)
        if v is not None:
            t, o = self.new_obj(st, 'bytes')
            o.parts = tuple(tm.part_of(v))
            return t

    def hexlify(self, v, st, upper):
        v = self.bytes_of(v, st)
        n = tm.length(v)
        if is_int_const(n) and cval(n) <= 256:
            r = const('')
            for i in range(cval(n)):
                o = hexoctet(tm.item(v, const(i)))
                r = tm.strcat(r, o if upper else mk('lowerhex', o))
            return r

    def b_binascii_hexlify(self, args, kw, st, node):
        r = self.hexlify(args[0], st, False)
        return None if r is None else mk('asciibytes', r)

    b_binascii_b2a_hex = b_binascii_hexlify

    def b_copy_copy(self, args, kw, st, node):
        if len(args) != 1 or kw or not isinstance(args[0], tm.T):
            return None
        x = self.simp(args[0], st)
        if x.op != 'obj':
            return x if is_const(x) or x.op == 'tuple' else None
        o = st.heap[x.args[0]]
        if o.open or o.kind == 'inst' and any(
                self.class_lookup(o.cls, m) is not None
                for m in ('__copy__', '__reduce__', '__reduce_ex__',
                          '__getstate__')):
            return None
        t, n = self.new_obj(st, o.kind, o.cls)
        n.attrs = dict(o.attrs)
        n.parts = o.parts
        n.entries = dict(o.entries)
        n.more = o.more
        n.ctor = o.ctor
        return t

    def b_copy_deepcopy(self, args, kw, st, node):
        if len(args) != 1 or kw or not isinstance(args[0], tm.T):
            return None
        done = {}

        def dup(x):
            x = self.simp(x, st)
            if x.op == 'tuple':
                return mk('tuple', *[dup(a) for a in x.args])
            if x.op != 'obj':
                if is_const(x) or x.op in ('wref', 'func', 'class', 'bseq',
                                           'sym', 'ext'):
                    return x
                raise Unable()
            if x in done:
                return done[x]
            o = st.heap[x.args[0]]
            if o.open or o.more is not None or o.kind == 'inst' and any(
                    self.class_lookup(o.cls, m) is not None
                    for m in ('__deepcopy__', '__reduce__', '__reduce_ex__',
                              '__getstate__')):
                raise Unable()
            t, n = self.new_obj(st, o.kind, o.cls)
            done[x] = t
            attrs = {k: dup(v) for k, v in o.attrs.items()}
            entries = {k: dup(v) for k, v in o.entries.items()}
            ps = o.parts
            if o.kind != 'bytes':
                if any(p[0] != 'e' for p in ps):
                    raise Unable()
                ps = tuple(('e', dup(p[1])) for p in ps)
            n = st.w(t.args[0])
            n.attrs, n.entries, n.parts, n.ctor = attrs, entries, ps, o.ctor
            return t

        class Unable(Exception):
            pass
        try:
            return dup(args[0])
        except Unable:
            return None

    def b_weakref_ref(self, args, kw, st, node):
        if len(args) != 1 or kw or not isinstance(args[0], tm.T):
            return None
        x = self.simp(args[0], st)
        if tm.type_of(x) in ('str', 'bytes', 'int', 'bool') or \
                x is tm.NONE or x.op == 'tuple':
            self.do_raise(mk('ext', 'TypeError'), st.copy(), node,
                          self.frames[-1] if self.frames else None)
            raise Dead()
        return mk('wref', x)

    def m_hex(self, b, args, kw, st, node):
        return self.hexlify(b, st, False)

    def b_hash(self, args, kw, st, node):
        a = self.simp(args[0], st)
        if a.op == 'obj' and st.heap[a.args[0]].kind == 'inst':
            m = self.class_lookup(st.heap[a.args[0]].cls, '__hash__')
            if m is not None and m.op == 'func':
                return self.call(mk('bound', a, m), [], [], st, node)
            return None
        return mk('call', 'hash', (self.snapshot(a, st),), ())

    def b_repr(self, args, kw, st, node):
        return mk('fmt', const('r'), *self.flat(args, st))


URL_FIELDS = ('hostname', 'port', 'username', 'password')


def url_parts(t):
    """A parsed address: the only tuples with these fields."""
    from urllib import parse
    if t.op == 'tuple' and all(is_const(x) and isinstance(cval(x), str)
                               for x in t.args):
        if len(t.args) == 6:
            return parse.ParseResult(*map(cval, t.args))
        if len(t.args) == 5:
            return parse.SplitResult(*map(cval, t.args))


def texts(parts):
    """Constants and texts in a row."""
    r = const('')
    for p in parts:
        if is_const(p):
            r = tm.strcat(r, const(str(cval(p))))
        elif tm.type_of(p) == 'str':
            r = tm.strcat(r, p)
        else:
            return None
    return r


def plain_format(f, fa, fk):
    """str.format with texts and plain fields."""
    import string
    parts = []
    n = 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(f):
            parts.append(const(lit))
            if name is None:
                continue
            if conv not in (None, 's'):
                return None
            if name == '':
                name, n = str(n), n + 1
            v = fa[int(name)] if name.isdigit() else fk[name]
            if spec:
                if '{' in spec or v.op != 'const' or not isinstance(
                        cval(v), (int, str)):
                    return None
                v = const(format(cval(v), spec))
            parts.append(v)
    except (ValueError, IndexError, KeyError):
        return None
    return texts(parts)


hexoctet = tm.hexoctet


def unhex(t):
    if is_const(t):
        return const(int(cval(t), 16))
    if t.op == 'hexoctet':
        return t.args[0]
    return mk('unhex', t)


def uphex(b):
    if b.op in ('hexoctet', 'hexof', 'hexnorm'):
        return b
    if b.op == 'lowerhex':
        return b.args[0]
    if b.op == 'strcat':
        xs = [uphex(x) if not is_const(x) else const(cval(x).upper())
              for x in b.args]
        if all(x is not None for x in xs):
            r = const('')
            for x in xs:
                r = tm.strcat(r, x)
            return r
    if b.op == 'phi':
        x, y = uphex(b.args[1]), uphex(b.args[2])
        if x is not None and y is not None:
            return phi(b.args[0], x, y)
    return None


def be_read(v, off, n):
    if v.op == 'slice':
        b, lo, hi = v.args
        if lo is NONE:
            lo = ZERO
        if tm.nonneg(lo):
            return tm.rd(b, tm.add(lo, const(off)), n)
    r = ZERO
    for i in range(n):
        r = tm.add(r, tm.scale(tm.item(v, const(off + i)),
                               256 ** (n - 1 - i)))
    return r


def as_bitlen(v):
    """int(floor(float(log(i, 2))))-like patterns are left symbolic."""
    if v.op in ('floor', 'ceil'):
        return mk('call', 'int', (v,), ())
    return None


def disjoint(a, b):
    def span(x):
        if is_int_const(x):
            v = cval(x)
            if v < 0:
                return None
            return v
        if x.op == 'lin':
            m = x.args[0]
            if m < 0:
                return None
            for at, k in x.args[1]:
                w = tm.max_width(at)
                if w is None or k <= 0 or k & (k - 1):
                    return None
                m |= ((1 << w) - 1) * k
            return m
        w = tm.max_width(x)
        return None if w is None else (1 << w) - 1
    sa, sb = span(a), span(b)
    if sa is not None and sb is not None:
        return sa & sb == 0
    # one side is a shifted unbounded value: k * atom with 2**s | k
    for x, s in ((a, sb), (b, sa)):
        if s is None:
            continue
        c, p = tm.lin_parts(x)
        low = s.bit_length()
        if c % (1 << low) == 0 and p and all(
                k > 0 and k % (1 << low) == 0 for k in p.values()):
            return True
    return False


def eq_consts(f, x):
    """Constants x may equal if f is a disjunction of x == const."""
    out = []
    for a in f.args:
        if a.op != 'cmp' or a.args[0] != '==':
            return None
        if a.args[1] is x and is_const(a.args[2]):
            out.append(a.args[2])
        elif a.args[2] is x and is_const(a.args[1]):
            out.append(a.args[1])
        else:
            return None
    return out


class Dead(Exception):
    """The rest of the current statement is unreachable."""


class Result(object):
    pass


BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__all__',
                                 '__package__'}
# Names of Python 2 alone: looking one up raises NameError.
PY2_ONLY = {'long', 'unicode', 'xrange', 'basestring', 'unichr', 'raw_input',
            'reduce', 'cmp', 'file', 'execfile', 'reload', 'buffer',
            'apply', 'coerce', 'intern'}
STATEFUL_EXT = {'zlib.compressobj', 'zlib.decompressobj',
                'bz2.BZ2Compressor', 'bz2.BZ2Decompressor',
                'socket.socket', 'open', 'io.BytesIO', 'io.StringIO',
                'Crypto.Random.new'}
FRESH_EXT = set()
STATELESS = {'Crypto.Signature.PKCS1_v1_5.new', 'Crypto.Cipher.PKCS1_v1_5.new',
             'Crypto.Cipher.PKCS1_OAEP.new', 'Crypto.Signature.PKCS1_PSS.new'}

# Attributes constructors of other packages' classes set from their arguments.
EXT_INIT = {'Crypto.Cipher.PKCS1_v1_5.PKCS115_Cipher': ('_key',)}

# Cipher implementations are opaque: only which one is called, and with what.
OPAQUE = {'pgp.cipher.aidea', 'pgp.cipher.camellia', 'pgp.cipher.twofish',
          'pgp.cipher.wrapper'}

EXT_CONSTS = {'zlib.DEFLATED': 8, 'zlib.MAX_WBITS': 15, 'os.sep': '/',
              'os.path.sep': '/', 'os.extsep': '.', 'os.path.extsep': '.',
              'os.linesep': '\n', 'signal.SIG_DFL': 0}
for _n in dir(errno):
    if _n.startswith('E'):
        EXT_CONSTS['errno.' + _n] = getattr(errno, _n)
EXT_METHODS = {
    'zlib.compressobj': {'compress', 'flush', 'copy'},
    'zlib.decompressobj': {'decompress', 'flush', 'copy', 'unused_data',
                           'unconsumed_tail', 'eof'},
    'bz2.BZ2Compressor': {'compress', 'flush'},
    'bz2.BZ2Decompressor': {'decompress', 'eof', 'unused_data',
                            'needs_input'}}
for _i, _n in enumerate(('ECB', 'CBC', 'CFB', 'PGP', 'OFB', 'CTR',
                         'OPENPGP')):
    for _m in ('blockalgo', 'AES', 'DES3', 'CAST', 'Blowfish'):
        EXT_CONSTS['Crypto.Cipher.%s.MODE_%s' % (_m, _n)] = _i + 1
for _m, _n in (('AES', 16), ('DES3', 8), ('CAST', 8), ('Blowfish', 8)):
    EXT_CONSTS['Crypto.Cipher.%s.block_size' % _m] = _n
for _m, _n, _i in (('MD2', 16, 16), ('MD4', 16, 64), ('MD5', 16, 64),
                   ('SHA', 20, 64), ('RIPEMD', 20, 64), ('SHA224', 28, 64),
                   ('SHA256', 32, 64), ('SHA384', 48, 128),
                   ('SHA512', 64, 128)):
    EXT_CONSTS['Crypto.Hash.%s.digest_size' % _m] = _n
    EXT_CONSTS['Crypto.Hash.%s.block_size' % _m] = _i


HASHES = {'md5': 16, 'sha1': 20, 'ripemd160': 20, 'sha224': 28, 'sha256': 32,
          'sha384': 48, 'sha512': 64, 'md2': 16, 'md4': 16}
HASH_ALIAS = {'sha': 'sha1', 'ripemd': 'ripemd160', 'rmd160': 'ripemd160'}


def is_hash_ctor(name):
    if name.startswith('Crypto.Hash.') and name.endswith('.new') and \
            'HMAC' not in name:
        return True
    return name.startswith('hashlib.')


def hash_alg(name, args=()):
    """Canonical algorithm name of a hash constructor."""
    if name == 'hashlib.new':
        n = cval(args[0]) if args and is_const(args[0]) else 'unknown'
    else:
        n = name.split('.')[2 if name.startswith('Crypto.') else 1]
    n = str(n).lower().replace('-', '')
    return HASH_ALIAS.get(n, n)


for _n, _s in HASHES.items():
    tm.DIGEST_SIZES[mk('alg', _n)] = _s


def class_const(tree, cls, attr):
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for s in c.body:
                if isinstance(s, ast.Assign) and isinstance(
                        s.value, ast.Constant) and any(
                        isinstance(t, ast.Name) and t.id == attr
                        for t in s.targets):
                    return s.value.value
    return None


CIPHERS = {'Crypto.Cipher.%s.new' % _n for _n in (
    'AES', 'DES3', 'CAST', 'Blowfish', 'DES', 'ARC2')} | {
    _n + '.new' for _n in OPAQUE}


PK_FIELDS = {'RSA': ('n', 'e', 'd', 'p', 'q', 'u'),
             'DSA': ('y', 'g', 'p', 'q', 'x'),
             'ElGamal': ('p', 'g', 'y', 'x')}
PK_FIELDS = {'Crypto.PublicKey.%s.construct' % _k: _v
             for _k, _v in PK_FIELDS.items()}


def pk_fields(t):
    """Parameters of a public-key object, by name."""
    if t.op == 'call' and t.args[0] in PK_FIELDS and t.args[1]:
        v = as_tuple(t.args[1][0])
        if v.op == 'tuple':
            return dict(zip(PK_FIELDS[t.args[0]], v.args))
    return None


def const_head(t):
    """The constant octets an octet string begins with."""
    h = b''
    for p in tm.norm_parts(tm.part_of(t)):
        if p[0] != 'k':
            break
        h += p[1]
    return h


def as_tuple(t):
    if t.op == 'listv' and all(p[0] == 'e' for p in t.args):
        return mk('tuple', *[p[1] for p in t.args])
    return t


BLOCKS = {'AES': 16, 'DES3': 8, 'CAST': 8, 'Blowfish': 8, 'DES': 8,
          'ARC2': 8, 'aidea': 8, 'twofish': 16, 'camellia': 16}


def block_of(ctor):
    return BLOCKS[ctor.args[0].split('.')[-2]]


def stream_shape(ctor):
    """(kind, unit in octets) of a cipher object in a feedback mode."""
    if ctor.op == 'phi':
        a, b = stream_shape(ctor.args[1]), stream_shape(ctor.args[2])
        return a if a == b else None
    if ctor.op != 'call' or ctor.args[0] not in CIPHERS or \
            len(ctor.args[1]) < 2:
        return None
    if ctor.args[0].split('.')[-2] not in BLOCKS:
        return None
    mode = ctor.args[1][1]
    kw = dict(ctor.args[2])
    if is_const(mode) and cval(mode) == 7:
        return 'openpgp', 1
    if not is_const(mode) or cval(mode) != 3:
        return None
    seg = kw.get('segment_size', const(8))
    if not is_int_const(seg) or cval(seg) <= 0 or cval(seg) % 8:
        return None
    return 'cfb', cval(seg) // 8


def cipher_args(name, fa, fk):
    """Canonical arguments of a block cipher object."""
    if name == 'pgp.cipher.wrapper.new' and fa and fa[0].op == 'ext':
        name, fa = fa[0].args[0] + '.new', fa[1:]
    kw = dict(fk)
    pos = list(fa)
    for k in ('key', 'mode'):
        if k in kw and len(pos) == ('key', 'mode').index(k):
            pos.append(kw.pop(k))
    if len(pos) > 2:
        kw['IV'] = pos[2]
    if 'iv' in kw:
        kw['IV'] = kw.pop('iv')
    if kw.get('segment_size') is NONE:
        kw.pop('segment_size')
    iv = kw.get('IV')
    if len(pos) > 1 and is_const(pos[1]) and cval(pos[1]) == 7 and \
            iv is not None and iv.op == 'eiv' and \
            iv.args[0].args[0] == name and iv.args[0].args[1][0] is pos[0] \
            and iv.args[1] == block_of(iv.args[0]) + 2:
        # the stream that began with this encrypted prefix
        return iv.args[0]
    return mk('call', name, tuple(pos[:2]),
              tuple(sorted(kw.items(), key=lambda x: x[0])))


def to_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


def first_param(node):
    a = node.args
    ps = a.posonlyargs + a.args
    return ps[0].arg if ps else None


_LOCALS = {}


def local_names(node):
    r = _LOCALS.get(node)
    if r is not None:
        return r
    out = set()
    if isinstance(node, ast.Lambda):
        _LOCALS[node] = frozenset()
        return frozenset()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    for s in node.body:
        collect_names(s, out)
    glob = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            glob.update(x.names)
    r = frozenset(out - glob)
    _LOCALS[node] = r
    return r


def collect_names(n, out):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(n.name)
        return
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                      ast.GeneratorExp)):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                out.add(x.target.id)
        return
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        out.add(n.id)
    if isinstance(n, ast.ExceptHandler) and n.name:
        out.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            out.add((a.asname or a.name).split('.')[0])
    for c in ast.iter_child_nodes(n):
        collect_names(c, out)


def assigned_names(stmts):
    out = set()
    for s in stmts:
        collect_names(s, out)
    return out


_YIELD = {}


_CONTEXT = {}


def context_body(node, s):
    """(new names of the variables, statements) for a with statement over a
    call of the generator, or None."""
    k = (node, s)
    if k in _CONTEXT:
        return _CONTEXT[k]
    _CONTEXT[k] = None
    ys = []
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.YieldFrom, ast.Return, ast.FunctionDef,
                          ast.Lambda, ast.ClassDef, ast.Global,
                          ast.Nonlocal, ast.For, ast.While)):
            if not isinstance(n, ast.Lambda):
                return None
        if isinstance(n, ast.Yield):
            ys.append(n)
        stack.extend(ast.iter_child_nodes(n))
    if len(ys) != 1:
        return None
    names = {n: '\1%d %s' % (len(_CONTEXT), n) for n in local_names(node)}
    inner = s.body
    if len(s.items) > 1:
        inner = [ast.copy_location(ast.With(
            items=s.items[1:], body=s.body), s)]
    found = []

    class Put(ast.NodeTransformer):
        def visit_Name(self, n):
            n.id = names.get(n.id, n.id)
            return n

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
            if n.name:
                n.name = names.get(n.name, n.name)
            return n

        def visit_Expr(self, n):
            self.generic_visit(n)
            if not isinstance(n.value, ast.Yield):
                return n
            found.append(n)
            v = n.value.value
            if v is None:
                v = ast.copy_location(ast.Constant(value=None), n)
            if s.items[0].optional_vars is None:
                first = ast.Expr(value=v)
            else:
                first = ast.Assign(targets=[s.items[0].optional_vars],
                                   value=v)
            return [ast.copy_location(first, n)] + inner
    stmts = []
    for x in node.body:
        r = Put().visit(copy.deepcopy(x))
        stmts.extend(r if isinstance(r, list) else [r])
    if len(found) == 1:
        _CONTEXT[k] = names, stmts
    return _CONTEXT[k]


def has_yield(node):
    r = _YIELD.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.GeneratorExp, ast.ListComp)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        _YIELD[node] = r
    return r
