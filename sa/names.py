"""Resolution of names, attributes and argument lists over the syntax trees
of a package."""
import ast
import builtins
import os
import symtable

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'extnames.txt')) as _fh:
    EXTERNAL = frozenset(_fh.read().split())
BUILTIN = frozenset(dir(builtins)) | {
    '__file__', '__name__', '__doc__', '__package__', '__path__',
    '__builtins__', '__spec__', 'WindowsError'}
PY2 = {'unicode', 'long', 'basestring', 'xrange', 'unichr', 'raw_input',
       'reduce', 'cmp', 'file', 'intern', 'buffer'}
KNOWN_DECORATORS = {'staticmethod', 'classmethod', 'property'}
OPEN = '*open*'


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.bases = []           # Class | None (not of the package)
        self.subs = []
        self.methods = {}
        self.attrs = set()        # bound in the class body
        self.own = set()          # bound on self or cls in a method
        self.open = False


def scope_nodes(body):
    """All nodes of a scope, not those of functions and classes in it, except
    for their decorators and defaults."""
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list + n.args.defaults + [
                d for d in n.args.kw_defaults if d is not None])
        elif isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
        elif isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list + n.bases + [
                k.value for k in n.keywords])
        else:
            stack.extend(reversed(list(ast.iter_child_nodes(n))))


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            for n in targets(x):
                yield n
    elif isinstance(t, ast.Starred):
        for n in targets(t.value):
            yield n


class Names(object):
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.modules = {m: x for m, x in prog.modules.items()
                        if not any(m == s or m.startswith(s + '.')
                                   for s in skip)}
        self.ns = {}
        self.classes = {}
        self.outside = set()      # attributes set on anything but self
        for m in self.modules.values():
            self.ns[m.name] = self.namespace(m)
        for m in list(self.modules.values()):
            for c in [n for n in ast.walk(m.tree)
                      if isinstance(n, ast.ClassDef)]:
                self.classes[c] = Class(m, c)
        for c in self.classes.values():
            self.fill(c)
        for c in self.classes.values():
            for b in c.bases:
                if b is not None:
                    b.subs.append(c)
        self.defined = self.all_defined()

    # ------------------------------------------------------------ modules
    def namespace(self, m):
        """{name: ('def', node) | ('mod', name) | ('from', mod, name) |
        ('value', node) | ('ext',)}"""
        out = {}
        for n in scope_nodes(m.tree.body):
            self.bind(m, n, out)
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for x in f.names:
                    out.setdefault(x, ('value', f))
        return out

    def bind(self, m, n, out):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out[n.name] = ('many',) if n.name in out else ('def', n)
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = self.modref(a.name)
                else:
                    out[a.name.split('.')[0]] = self.modref(
                        a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            base = self.absolute(m, n)
            for a in n.names:
                if a.name == '*':
                    if base in self.modules:
                        out.setdefault('*', []).append(base)
                    else:
                        out[OPEN] = ('ext',)
                    continue
                k = a.asname or a.name
                new = ('from', base, a.name) if self.internal(base) \
                    else ('ext',)
                if k in out and out[k] != new:
                    new = ('many',)
                out[k] = new
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (
                ast.Store, ast.Del)):
            out[n.id] = ('many',) if n.id in out else ('value', n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out[n.name] = ('value', n)

    def internal(self, name):
        return name is not None and (
            name == self.prog.pkg or name.startswith(self.prog.pkg + '.'))

    def modref(self, name):
        return ('mod', name) if self.internal(name) else ('ext',)

    def absolute(self, m, n):
        if not n.level:
            return n.module
        parts = m.name.split('.')
        if os.path.basename(m.path) != '__init__.py':
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def lookup(self, mod, name, seen=()):
        """What a name of a module is: ('def', Module, node), ('mod', name),
        ('unknown',), or None if there is no such name."""
        if (mod, name) in seen:
            return ('unknown',)
        ns = self.ns.get(mod)
        if ns is None:
            return ('unknown',)
        x = ns.get(name)
        if x is None:
            for b in ns.get('*', []):
                r = self.lookup(b, name, seen + ((mod, name),))
                if r is not None:
                    return r
            if mod + '.' + name in self.modules:
                return ('mod', mod + '.' + name)
            if OPEN in ns or '__getattr__' in ns:
                return ('unknown',)
            return None
        if x[0] == 'def':
            return ('def', self.modules[mod], x[1])
        if x[0] == 'mod':
            return x if x[1] in self.modules else ('unknown',)
        if x[0] == 'from':
            full = x[1] + '.' + x[2]
            if x[1] not in self.modules:
                return ('mod', full) if full in self.modules else \
                    ('unknown',)
            r = self.lookup(x[1], x[2], seen + ((mod, name),))
            return r if r is not None else ('unknown',)
        return ('unknown',)

    # ------------------------------------------------------------ classes
    def fill(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r is not None and r[0] == 'def' and r[2] in self.classes:
                c.bases.append(self.classes[r[2]])
            elif isinstance(b, ast.Name) and b.id in (
                    'object', 'Exception', 'ValueError', 'TypeError',
                    'KeyError', 'RuntimeError', 'UserWarning', 'Warning',
                    'DeprecationWarning', 'OSError', 'IOError'):
                if b.id != 'object':
                    c.attrs |= {'args', 'with_traceback', 'errno', 'strerror',
                                'filename'}
            else:
                c.open = True
        if c.node.keywords:
            c.open = True
        for d in c.node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                f, 'id', '')
            if nm not in ('implementer', 'provider'):
                c.open = True
        for n in scope_nodes(c.node.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.methods[n.name] = n
                c.attrs.add(n.name)
                if n.name in ('__getattr__', '__getattribute__',
                              '__setattr__'):
                    c.open = True
            elif isinstance(n, ast.ClassDef):
                c.attrs.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                c.attrs.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    c.attrs.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ('locals', 'vars', 'exec'):
                c.open = True
        for f in c.methods.values():
            first = f.args.args[0].arg if f.args.args else None
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and \
                            n.value.id == first:
                        c.own.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr' and \
                        n.args and isinstance(n.args[0], ast.Name) and \
                        n.args[0].id == first:
                    if len(n.args) > 1 and isinstance(
                            n.args[1], ast.Constant):
                        c.own.add(n.args[1].value)
                    else:
                        c.open = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' \
                        and isinstance(n.value, ast.Name) and \
                        n.value.id == first:
                    c.open = True

    def mro(self, c, seen=None):
        seen = [] if seen is None else seen
        if c not in seen:
            seen.append(c)
            for b in c.bases:
                self.mro(b, seen)
        return seen

    def family(self, c):
        """The classes an instance of which may run a method of c, with all
        their bases."""
        out = []
        stack = [c]
        while stack:
            x = stack.pop()
            if x in out:
                continue
            out.append(x)
            stack.extend(x.subs)
        return out

    def leaves(self, c):
        return [x for x in self.family(c) if not x.subs]

    def is_open(self, c):
        return any(x.open for x in self.mro(c))

    def has(self, c, name):
        return any(name in x.attrs or name in x.own for x in self.mro(c))

    def method(self, c, name):
        """The method a class has under a name, if that can be said."""
        for x in linear(self, c):
            if name in x.methods:
                return x, x.methods[name]
            if name in x.attrs or name in x.own:
                return None
            if x.open:
                return None
        return None

    # ------------------------------------------------------------ resolving
    def resolve_expr(self, m, e, local=frozenset()):
        """What a dotted expression of module scope is."""
        if isinstance(e, ast.Name):
            if e.id in local:
                return ('unknown',)
            return self.lookup(m.name, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, local)
            if b is not None and b[0] == 'mod':
                r = self.lookup(b[1], e.attr)
                return r
            return ('unknown',)
        return ('unknown',)

    def all_defined(self):
        out = set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                                  ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    out.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and
                            n.value.id in ('self', 'cls')):
                        self.outside.add(n.attr)
                elif isinstance(n, ast.alias):
                    out.add((n.asname or n.name).split('.')[-1])
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
                elif isinstance(n, ast.Call) and getattr(
                        n.func, 'id', getattr(n.func, 'attr', '')) in (
                            'add_argument', 'namedtuple', 'add_parser',
                            'set_defaults', 'Enum'):
                    # options and fields, given as strings
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(
                                x.value, str):
                            for w in x.value.replace(',', ' ').split():
                                w = w.lstrip('-').replace('-', '_')
                                if w.isidentifier():
                                    out.add(w)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.outside.add(n.args[1].value)
                        out.add(n.args[1].value)
        return out


def linear(names, c):
    """A linearisation good enough to find methods: depth first, bases that
    are inherited from twice last."""
    out = []

    def go(x):
        out.append(x)
        for b in x.bases:
            go(b)
    go(c)
    seen = []
    for i, x in enumerate(out):
        if x not in out[i + 1:]:
            seen.append(x)
    return seen


def accepts(f, npos, kws, skip_first):
    """Whether a call of a function with so many positional arguments and
    these keywords can be bound; a message if not."""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_first:
        if not pos and not a.vararg:
            return 'takes no positional arguments, not even self'
        pos = pos[1:]
    only = len(a.posonlyargs) - (1 if skip_first and a.posonlyargs else 0)
    if npos > len(pos) and not a.vararg:
        return 'takes at most %d positional arguments, is given %d' % (
            len(pos), npos)
    given = set(pos[:npos])
    names = set(pos[max(only, 0):]) | {x.arg for x in a.kwonlyargs}
    for k in kws:
        if k in given:
            return 'gets two values for %r' % k
        if k not in names and not a.kwarg:
            return 'has no parameter %r' % k
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) < len(pos) \
        or not a.defaults else []
    missing = [p for p in need[npos:] if p not in kws]
    missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                if d is None and x.arg not in kws]
    if missing:
        return 'is not given %s' % ', '.join(missing)
    return None


def call_shape(e):
    """(positional count, keywords), or None if there is a star."""
    if any(isinstance(a, ast.Starred) for a in e.args) or any(
            k.arg is None for k in e.keywords):
        return None
    return len(e.args), [k.arg for k in e.keywords]


def plain(f):
    """Is the function called with the parameters it declares?"""
    for d in f.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '')
        if nm in ('setter', 'getter', 'deleter', 'property'):
            return False
        if nm not in KNOWN_DECORATORS and nm not in (
                'contextmanager', 'abstractmethod', 'wraps', 'implementer',
                'provider', 'register'):
            return False
    return True


def kind(f):
    for d in f.decorator_list:
        nm = getattr(d, 'id', getattr(d, 'attr', ''))
        if nm in ('staticmethod', 'classmethod', 'property'):
            return nm
    return 'method'


def guarded(node):
    """Is the node in a try block that expects names or attributes to be
    missing, or in code for another version of the language?"""
    n = node
    while getattr(n, '_parent', None) is not None:
        p = n._parent
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                if h.type is None:
                    return True
                for x in ast.walk(h.type):
                    if getattr(x, 'id', getattr(x, 'attr', '')) in (
                            'NameError', 'AttributeError', 'Exception',
                            'BaseException', 'ImportError',
                            'UnboundLocalError', 'TypeError'):
                        return True
        if isinstance(p, ast.Try) and n in p.orelse:
            pass
        if isinstance(p, ast.ExceptHandler) and p.type is not None:
            for x in ast.walk(p.type):
                if getattr(x, 'id', getattr(x, 'attr', '')) in (
                        'ImportError', 'NameError', 'AttributeError'):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and version_test(p.test):
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and (
                n is not p.test) and any(
                isinstance(x, ast.Call) and getattr(
                    x.func, 'id', '') in ('hasattr', 'callable', 'getattr',
                                          'isinstance') and
                isinstance(node, ast.Attribute) and x.args and
                ast.dump(x.args[0]) == ast.dump(node.value)
                for x in ast.walk(p.test)):
            return True
        n = p
    return False


def version_test(t):
    return any(isinstance(x, ast.Attribute) and x.attr in (
        'version_info', 'PY2', 'PY3', 'hexversion') for x in ast.walk(t)) or \
        any(isinstance(x, ast.Name) and x.id in ('PY2', 'PY3', 'PYTHON3')
            for x in ast.walk(t))


def unresolved(names, m):
    """(name, node, scope) read somewhere and bound nowhere."""
    table = symtable.symtable(m.source, m.path, 'exec')
    ns = names.ns[m.name]
    where = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            where.setdefault(n.id, []).append(n)
    missing = {}

    def go(t, path):
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            if t.get_type() == 'module' or str(t.get_type()).endswith(
                    'MODULE'):
                free = True
            else:
                free = s.is_global()
            if free and names.lookup(m.name, s.get_name()) is None and \
                    s.get_name() not in BUILTIN and OPEN not in ns and \
                    not (s.is_assigned() and free and path == ''):
                missing.setdefault(s.get_name(), []).append(
                    (path, t.get_lineno()))
        for ch in t.get_children():
            go(ch, path + '.' + ch.get_name())
    go(table, '')
    for name, scopes in sorted(missing.items()):
        for n in where.get(name, []):
            if in_scopes(n, scopes) and not guarded(n):
                yield name, n


def in_scopes(n, scopes):
    path = []
    p = n
    while getattr(p, '_parent', None) is not None:
        q = p._parent
        if isinstance(q, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)) and p in q.body:
            path.insert(0, q.name)
        p = q
    path = ''.join('.' + x for x in path)
    return any(s[0].split('.listcomp')[0].split('.genexpr')[0].split(
        '.lambda')[0].split('.setcomp')[0].split('.dictcomp')[0] == path
        for s in scopes)


# ---------------------------------------------------------------- flow
def unbound(f):
    """Names of local variables read where no assignment can have come
    before."""
    local = set()
    decl = set()
    for n in scope_nodes(f.body):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            decl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (
                ast.Store, ast.Del)):
            local.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            local.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                local.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            local.add(n.name)
    # variables of comprehensions are their own
    comp = set()
    for n in scope_nodes(f.body):
        if isinstance(n, ast.comprehension):
            comp.update(targets(n.target))
    a = f.args
    args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        args.add(a.vararg.arg)
    if a.kwarg:
        args.add(a.kwarg.arg)
    local -= decl | args | comp
    bad = []

    def read(e, have):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            read(e.generators[0].iter, have)
            return
        if isinstance(e, ast.NamedExpr):
            read(e.value, have)
            have.update(targets(e.target))
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in local and \
                    e.id not in have:
                bad.append(e)
            elif isinstance(e.ctx, ast.Store):
                have.add(e.id)
            return
        for x in ast.iter_child_nodes(e):
            read(x, have)

    def block(body, have):
        """The names that may be bound afterwards, or None if nothing comes
        afterwards."""
        for s in body:
            have = stmt(s, have)
            if have is None:
                return None
        return have

    def bound_in(body):
        out = set()
        for n in scope_nodes(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out

    def stmt(s, have):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            have.add(s.name)
            return have
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                have.add((a.asname or a.name).split('.')[0])
            return have
        if isinstance(s, ast.Assign):
            read(s.value, have)
            for t in s.targets:
                read(t, have)
            return have
        if isinstance(s, ast.AugAssign):
            read(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in local and s.target.id not in have:
                    bad.append(s.target)
            else:
                read(s.target, have)
            return have
        if isinstance(s, ast.Delete):
            return have
        if isinstance(s, ast.If):
            read(s.test, have)
            a, b = block(s.body, have), block(s.orelse, have)
            if a is None:
                return b
            return a if b is None else a | b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            read(s.iter, have)
            have |= bound_in(s.body) | set(targets(s.target))
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    have.add(n.id)
            block(s.body, have)
            b = block(s.orelse, have)
            return have | (b or set())
        if isinstance(s, ast.While):
            pre = set(have)
            read(s.test, have)
            have |= bound_in(s.body)
            block(s.body, have)
            b = block(s.orelse, have)
            if isinstance(s.test, ast.Constant) and s.test.value and \
                    not any(isinstance(n, ast.Break)
                            for n in ast.walk(s)):
                return None
            return have | (b or set())
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                read(it.context_expr, have)
                if it.optional_vars is not None:
                    read(it.optional_vars, have)
            out = block(s.body, have)
            # the context manager may swallow an exception
            return have | bound_in(s.body) if out is None else out
        if isinstance(s, ast.Try):
            a = block(s.body, have)
            mid = have | bound_in(s.body)
            if a is not None:
                a = block(s.orelse, a)
            outs = [a]
            for h in s.handlers:
                hv = set(mid)
                if h.type is not None:
                    read(h.type, hv)
                if h.name:
                    hv.add(h.name)
                outs.append(block(h.body, hv))
            outs = [o for o in outs if o is not None]
            res = set().union(*outs) if outs else None
            if s.finalbody:
                fin = block(s.finalbody, mid | bound_in(s.orelse) | set(
                ).union(*[bound_in(h.body) for h in s.handlers]))
                if fin is None:
                    return None
                if res is not None:
                    res |= bound_in(s.finalbody)
            return res
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                read(x, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        for x in ast.iter_child_nodes(s):
            read(x, have)
        return have
    block(f.body, set())
    return bad
