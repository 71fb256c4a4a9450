"""C29: names, attributes, argument lists and imports resolve."""
import ast

from ..bound import maybe_unbound
from ..names import (EXTERNAL, PY2, BUILTIN, Names, accepts, call_shape,
                     guarded, kind, linear, plain, scope_nodes, unbound,
                     unresolved)

SKIP = ('pgp.test_keys',)


def check(c):
    c.rule('names', 'every name that is read is bound in an enclosing scope, '
           'in the module or among the builtins', 0)
    c.rule('locals', 'every local variable that is read may have been bound '
           'before', 0)
    c.rule('paths', 'on no path through a function is a local variable read '
           'that nothing on that path has bound (for loops taken to run at '
           'least once, conditions decided once per value of their variables, '
           'chains of elif taken to be exhaustive)', 0)
    c.rule('imports', 'every name imported from, and every attribute read of, '
           'a module of the package is defined by it', 0)
    c.rule('calls', 'the arguments of every call of a function, class or '
           'method of the package fit its parameters', 0)
    c.rule('own attributes', 'every attribute read on self is bound by the '
           'class, its bases or whoever sets it, for every class without '
           'subclasses', 0)
    c.rule('attributes', 'every attribute read on another object is an '
           'attribute of something', 0)
    c.rule('interfaces', 'a class that declares an interface has its methods, '
           'callable as declared, and its attributes', 0)
    names = Names(c.prog, SKIP)
    for m in sorted(names.modules.values(), key=lambda m: m.name):
        for fn in (module_names, module_locals, module_paths, module_imports, module_calls,
                   module_attrs):
            c.guard('names', '%s:%s' % (fn.__name__, m.name),
                    lambda fn=fn, m=m: fn(c, names, m))
    for cl in sorted(names.classes.values(),
                     key=lambda x: (x.module.name, x.node.lineno)):
        c.guard('own attributes', cl.module.name + ':' + cl.name,
                lambda cl=cl: class_attrs(c, names, cl))
    c.guard('interfaces', 'all', lambda: interfaces(c, names))


def scope_of(n):
    out = []
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.insert(0, n.name)
    return '.'.join(out)


def functions(m):
    return [n for n in ast.walk(m.tree)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def report(c, rule, m, found, total, what):
    """One obligation for what is right and one for each thing that is not;
    `found` is a list of (key, node, message)."""
    seen = set()
    for key, n, msg in found:
        k = '%s:%s:%s' % (m.name, scope_of(n), key)
        if k in seen:
            continue
        seen.add(k)
        c.ob(rule, k, False, msg, '%s (%s)' % (c.where(m.name, n),
                                               scope_of(n) or m.name))
    c.ob(rule, '%s: %d %s' % (m.name, total - len(found), what), True, '',
         c.where(m.name, m.tree))


def module_names(c, names, m):
    bad = []
    for name, n in unresolved(names, m):
        bad.append((name, n, '%r is bound nowhere' % name))
    total = sum(isinstance(n, ast.Name) for n in ast.walk(m.tree))
    report(c, 'names', m, bad, total, 'names')


def module_locals(c, names, m):
    bad = []
    fs = functions(m)
    for f in fs:
        for n in unbound(f):
            if not guarded(n):
                bad.append((n.id, n, 'the local variable %r cannot have been '
                            'bound' % n.id))
    report(c, 'locals', m, bad, len(fs), 'functions')


def module_paths(c, names, m):
    bad = []
    fs = functions(m)
    for f in fs:
        got = maybe_unbound(f)
        if got is None:
            c.ob('paths', '%s:%s' % (m.name, f.name), None,
                 'too many paths', c.where(m.name, f))
            continue
        for n in got:
            if not guarded(n):
                bad.append((n.id, n, 'on some path nothing has bound the '
                            'local variable %r' % n.id))
    report(c, 'paths', m, bad, len(fs), 'functions')


def local_names(f):
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    glob = set()
    for n in scope_nodes(f.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
    return out - glob


_LOCAL = {}


def locals_at(n):
    """Names bound in the functions around a node."""
    out = set()
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n not in _LOCAL:
                _LOCAL[n] = local_names(n)
            out |= _LOCAL[n]
        elif isinstance(n, ast.Lambda):
            out |= {x.arg for x in n.args.args}
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                            ast.GeneratorExp)):
            for g in n.generators:
                out |= {x.id for x in ast.walk(g.target)
                        if isinstance(x, ast.Name)}
    return out


def module_imports(c, names, m):
    bad = []
    total = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            base = names.absolute(m, n)
            if not names.internal(base):
                continue
            total += len(n.names)
            if base not in c.prog.modules:
                if not guarded(n):
                    bad.append((base, n, 'there is no module %s' % base))
                continue
            if base not in names.modules:
                continue
            for a in n.names:
                if a.name != '*' and names.lookup(base, a.name) is None and \
                        not guarded(n):
                    bad.append((a.name, n, '%s has no %s' % (base, a.name)))
        elif isinstance(n, ast.Import):
            for a in n.names:
                if names.internal(a.name):
                    total += 1
                    if a.name not in c.prog.modules and not guarded(n):
                        bad.append((a.name, n, 'there is no module %s' %
                                    a.name))
        elif isinstance(n, ast.Attribute):
            b = dotted(names, m, n.value)
            if b is not None and b[0] == 'mod' and b[1] in names.modules:
                total += 1
                if isinstance(n.ctx, ast.Load) and names.lookup(
                        b[1], n.attr) is None and not guarded(n) and \
                        n.attr not in ('__name__', '__file__', '__doc__',
                                       '__path__', '__dict__') and \
                        n.attr not in names.outside:
                    bad.append(('%s.%s' % (b[1], n.attr), n,
                                '%s has no %s' % (b[1], n.attr)))
    report(c, 'imports', m, bad, total, 'imports and module attributes')


def local_imports(names, m, n):
    """Imports in the functions around a node."""
    out = {}
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in scope_nodes(n.body):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    tmp = {}
                    names.bind(m, x, tmp)
                    for k, v in tmp.items():
                        out.setdefault(k, v)
    return out


def dotted(names, m, e):
    """What a dotted expression in a function is."""
    x = e
    while isinstance(x, ast.Attribute):
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    if x.id in locals_at(x):
        return None
    return names.resolve_expr(m, e)


def own_class(names, n):
    """(class, name of the first parameter, kind) of the method a node is
    in."""
    f = None
    first = True
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = n
        elif isinstance(n, ast.ClassDef):
            if f is None or not f.args.args:
                return None
            return names.classes[n], f.args.args[0].arg, kind(f), f
    return None


def rebound(f, name):
    return any(isinstance(n, ast.Name) and n.id == name and
               isinstance(n.ctx, ast.Store) for n in ast.walk(f))


def constructor(names, cl):
    """('ok', method or None) for creating an instance."""
    for x in linear(names, cl):
        if '__new__' in x.methods or '__call__' in x.attrs and False:
            return None
        if '__init__' in x.methods:
            f = x.methods['__init__']
            return ('init', f) if plain(f) else None
        if x.open:
            return None
    if any(isinstance(b, ast.Name) and b.id != 'object'
           for x in names.mro(cl) for b in x.node.bases
           if names.resolve_expr(x.module, b) is None):
        return None            # an exception takes anything
    return ('none', None)


def module_calls(c, names, m):
    bad = []
    total = 0
    for e in ast.walk(m.tree):
        if not isinstance(e, ast.Call):
            continue
        shape = call_shape(e)
        if shape is None:
            continue
        r = call_target(names, m, e)
        if r is None:
            continue
        total += 1
        what, f, skip = r
        if f is None:
            msg = 'takes no arguments' if shape[0] or shape[1] else None
        else:
            msg = accepts(f, shape[0], shape[1], skip)
        if msg and not guarded_call(e):
            bad.append((what, e, '%s %s' % (what, msg)))
    report(c, 'calls', m, bad, total, 'calls')


def guarded_call(e):
    return guarded(e)


def construct(names, cl):
    r = constructor(names, cl)
    if r is None:
        return None
    return cl.name, r[1], True


def call_target(names, m, e):
    """(name, function or None, is the first parameter given?)"""
    fn = e.func
    r = dotted(names, m, fn)
    if r is not None and r[0] == 'def':
        node = r[2]
        if isinstance(node, ast.ClassDef):
            cl = names.classes[node]
            if any(x.open for x in names.mro(cl)):
                return None
            return construct(names, cl)
        if not plain(node):
            return None
        return node.name, node, False
    if isinstance(fn, ast.Attribute):
        v = fn.value
        oc = own_class(names, e)
        # super().f(...)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'super' and oc is not None:
            cl = oc[0]
            if v.args and isinstance(v.args[0], ast.Name) and \
                    v.args[0].id != cl.name or names.is_open(cl) or \
                    any(len(names.classes[d].bases) > 1
                        for d in [x.node for x in names.family(cl)]):
                return None
            for x in linear(names, cl)[1:]:
                if fn.attr in x.methods:
                    f = x.methods[fn.attr]
                    if not plain(f):
                        return None
                    return fn.attr, f, kind(f) != 'staticmethod'
            return None
        # self.f(...), cls.f(...)
        if isinstance(v, ast.Name) and oc is not None and \
                v.id == oc[1] and oc[2] in ('method', 'classmethod') and \
                not rebound(oc[3], v.id):
            found = []
            for leaf in names.family(oc[0]):
                if oc[0] not in names.mro(leaf):
                    continue
                x = names.method(leaf, fn.attr)
                if x is None:
                    if not names.has(leaf, fn.attr) and leaf.subs:
                        continue      # not a complete class
                    return None
                if x[1] not in found:
                    found.append(x[1])
            if len(found) != 1 or not plain(found[0]):
                return None
            f = found[0]
            if oc[2] == 'classmethod' and kind(f) == 'method':
                return None
            return fn.attr, f, kind(f) != 'staticmethod'
        # Class.f(self, ...)
        r = dotted(names, m, v)
        if r is not None and r[0] == 'def' and isinstance(
                r[2], ast.ClassDef):
            cl = names.classes[r[2]]
            x = names.method(cl, fn.attr)
            if x is None or not plain(x[1]):
                return None
            return '%s.%s' % (cl.name, fn.attr), x[1], \
                kind(x[1]) == 'classmethod'
        # x = Class(...); x.f(...)
        cl = instance_of(names, m, v)
        if cl is not None:
            x = names.method(cl, fn.attr)
            if x is None or not plain(x[1]) or cl.subs and False:
                return None
            return '%s.%s' % (cl.name, fn.attr), x[1], \
                kind(x[1]) != 'staticmethod'
        # a method that only classes of the package have, all of them alike
        if fn.attr not in EXTERNAL and dotted(names, m, v) is None:
            cs = [k.methods[fn.attr] for k in names.classes.values()
                  if fn.attr in k.methods]
            if cs and all(plain(f) for f in cs) and not any(
                    fn.attr in k.own or fn.attr in k.attrs and
                    fn.attr not in k.methods
                    for k in names.classes.values()) and \
                    fn.attr not in names.outside:
                shape = call_shape(e)
                for f in cs:
                    # a static call through a class cannot be told apart
                    if accepts(f, shape[0], shape[1],
                               kind(f) != 'staticmethod') is None:
                        return fn.attr, f, kind(f) != 'staticmethod'
                return '.' + fn.attr, cs[0], kind(cs[0]) != 'staticmethod'
    return None


def instance_of(names, m, v):
    """The class of a local variable bound once, to a new instance."""
    if isinstance(v, ast.Call):
        r = dotted(names, m, v.func)
        if r is not None and r[0] == 'def' and isinstance(
                r[2], ast.ClassDef):
            cl = names.classes[r[2]]
            return None if names.is_open(cl) or has_new(names, cl) else cl
        return None
    if not isinstance(v, ast.Name):
        return None
    n = v
    while getattr(n, '_parent', None) is not None:
        n = n._parent
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            break
    else:
        return None
    if v.id in {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}:
        return None
    got = []
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id == v.id and isinstance(
                x.ctx, (ast.Store, ast.Del)):
            p = x._parent
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and \
                    p.targets[0] is x:
                got.append(p.value)
            else:
                return None
        elif isinstance(x, (ast.Global, ast.Nonlocal)) and \
                v.id in x.names:
            return None
    if len(got) != 1 or not isinstance(got[0], ast.Call):
        return None
    return instance_of(names, m, got[0])


def has_new(names, cl):
    return any('__new__' in x.methods for x in names.mro(cl))


def class_attrs(c, names, cl):
    """Attributes read on self, for a class without subclasses."""
    if cl.subs or names.is_open(cl):
        return
    is_iface = False
    bad = []
    total = 0
    seen = set()
    for x in linear(names, cl):
        for nm, f in x.methods.items():
            if nm in seen:
                continue
            seen.add(nm)
            k = kind(f)
            if k == 'staticmethod' or not f.args.args:
                continue
            first = f.args.args[0].arg
            if rebound(f, first):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Load) and isinstance(
                            n.value, ast.Name) and n.value.id == first and \
                        own_first(n, f, first):
                    total += 1
                    if names.has(cl, n.attr) or n.attr in names.outside or \
                            n.attr in dir(object) or \
                            n.attr in ('__dict__', '__name__', '__module__',
                                       '__mro__', '__bases__') or guarded(n):
                        continue
                    bad.append((x, f, n))
    done = set()
    for x, f, n in bad:
        key = '%s.%s' % (first_name(f), n.attr)
        if key in done:
            continue
        done.add(key)
        c.ob('own attributes', '%s:%s: %s' % (cl.module.name, cl.name, key),
             False, 'an instance of %s has no %s' % (cl.name, n.attr),
             '%s (%s.%s)' % (c.where(x.module.name, n), x.name, f.name))
    c.ob('own attributes', '%s:%s: %d reads' % (
        cl.module.name, cl.name, total - len(bad)), True, '',
        c.where(cl.module.name, cl.node))


def first_name(f):
    return f.args.args[0].arg


def own_first(n, f, first):
    """Is the name the parameter of f, not of a function inside?"""
    while n is not f:
        n = n._parent
        if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)) and \
                first in {a.arg for a in n.args.args}:
            return False
    return True


def module_attrs(c, names, m):
    bad = []
    total = 0
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Attribute) or not isinstance(
                n.ctx, ast.Load):
            continue
        total += 1
        cl = instance_of(names, m, n.value)
        if cl is not None and not cl.subs:
            if not names.has(cl, n.attr) and n.attr not in names.outside \
                    and n.attr not in dir(object) and not guarded(n):
                bad.append(('%s.%s' % (cl.name, n.attr), n,
                            'an instance of %s has no %s' % (
                                cl.name, n.attr)))
            continue
        r = dotted(names, m, n.value)
        if r is not None and r[0] == 'def' and isinstance(
                r[2], ast.ClassDef):
            k = names.classes[r[2]]
            if not names.is_open(k) and not any(
                    n.attr in x.attrs for x in names.mro(k)) and \
                    n.attr not in names.outside and n.attr not in dir(
                        type) and n.attr not in dir(object) and \
                    not guarded(n) and not any(
                        n.attr in x.own for x in names.mro(k)):
                bad.append(('%s.%s' % (k.name, n.attr), n,
                            '%s has no %s' % (k.name, n.attr)))
            continue
        if n.attr in names.defined or n.attr in EXTERNAL or guarded(n):
            continue
        if external_base(names, m, n.value):
            continue
        bad.append(('.' + n.attr, n, 'nothing has an attribute %s' % n.attr))
    report(c, 'attributes', m, bad, total, 'attributes')


def external_base(names, m, e):
    x = e
    while isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)):
        x = x.func if isinstance(x, ast.Call) else x.value
    if not isinstance(x, ast.Name):
        return False
    ns = names.ns[m.name].get(x.id)
    li = local_imports(names, m, x).get(x.id)
    return (li or ns or ('',))[0] == 'ext' and (
        li is not None or x.id not in locals_at(x))


def interfaces(c, names):
    """implementer(I) and provider(I)."""
    for cl in sorted(names.classes.values(),
                     key=lambda x: (x.module.name, x.node.lineno)):
        for d in cl.node.decorator_list:
            if not isinstance(d, ast.Call):
                continue
            nm = getattr(d.func, 'id', getattr(d.func, 'attr', ''))
            if nm not in ('implementer', 'provider'):
                continue
            for a in d.args:
                r = names.resolve_expr(cl.module, a)
                if r is None or r[0] != 'def' or r[2] not in names.classes:
                    continue
                iface = names.classes[r[2]]
                declared(c, names, cl, iface, nm)


def declared(c, names, cl, iface, how):
    key = '%s:%s %s %s' % (cl.module.name, cl.name, {
        'implementer': 'implements', 'provider': 'provides'}[how],
        iface.name)
    w = '%s (%s)' % (c.where(cl.module.name, cl.node), cl.name)
    for i in linear(names, iface):
        for nm, f in sorted(i.methods.items()):
            if how == 'provider' and nm == '__call__':
                r = constructor(names, cl)
                if r is None:
                    continue
                ok = fits(f, r[1], True) if r[1] is not None else None
                c.ob('interfaces', '%s.__call__' % key, ok is None,
                     ok or '', w)
                continue
            if names.is_open(cl):
                continue
            x = names.method(cl, nm)
            if x is None:
                ok = names.has(cl, nm)
                c.ob('interfaces', '%s.%s' % (key, nm), ok,
                     '%s has no %s' % (cl.name, nm), w)
                continue
            msg = fits(f, x[1], kind(x[1]) != 'staticmethod') \
                if plain(x[1]) else None
            c.ob('interfaces', '%s.%s' % (key, nm), msg is None,
                 '%s.%s %s' % (cl.name, nm, msg or ''), '%s (%s.%s)' % (
                     c.where(x[0].module.name, x[1]), x[0].name, nm))
        for nm in sorted(i.attrs - set(i.methods)):
            if nm.startswith('__') or names.is_open(cl):
                continue
            c.ob('interfaces', '%s.%s' % (key, nm), names.has(cl, nm) or
                 nm in names.outside, '%s has no %s' % (cl.name, nm), w)


def fits(decl, impl, skip):
    """Can the implementation be called as declared?  The declaration has no
    self."""
    a = decl.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if pos[:1] == ['self']:
        pos = pos[1:]
    need = len(pos) - len(a.defaults)
    for n in range(max(need, 0), len(pos) + 1):
        r = accepts(impl, n, [], skip)
        if r:
            return r
    return None
