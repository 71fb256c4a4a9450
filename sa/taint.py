"""Where secret values flow: a taint analysis of the whole package.

Every local variable, result, parameter and attribute has a set of labels: a
string for a secret, an integer for what a parameter of the function is given.
Flow-insensitive within a function; results are summarised per function in
terms of its parameters, parameters and attributes collect what any call or
store gives them."""
import ast
import re

from .names import kind, linear, plain, scope_nodes

# names under which a value is a secret, wherever it comes from
NAMED = re.compile(
    r'^_?(pass_?phrases?|pass_?words?|sess(ion)?_?keys?|'
    r'secret_(data|values?|params?|bytes|exponent|content)|'
    r'new_passphrase|old_passphrase|plain_?text|exponent_[dx]|prime_q|'
    r'multiplicative_inverse(_u)?)$', re.I)
PUBLIC_NAMED = re.compile(r'cls|class|packet|algo', re.I)
# numbers and kinds of things, also of secret ones
STRUCTURE = re.compile(
    r'^(cls|.*(type|algo|algorithm|version|offset|length|len|size|count|'
    r'format|mode|class|flags?|specification)_?|idx|i|pos|start|end)$', re.I)
# parsing turns octets into objects, which are followed by their attributes
PARSERS = re.compile(r'^(packet_from_packet_\w+|from_packet\w*|parse\w*|'
                     r'\w+_from_packet|from_ascii)$')
SECRET_ATTRS = {'exponent_d', 'exponent_x', 'prime_q',
                'multiplicative_inverse_u', 'passphrase', 'session_key'}
# of key objects of the cipher library
KEY_ATTRS = {'d', 'x', 'u'}
# external calls that make secrets
MAKERS = {'getpass': 'a passphrase read', 'StrongRandom': 'a random value',
          'getRandomRange': 'a random value', 'getRandomNumber':
          'a random value', 'getRandomInteger': 'a random value'}
GETTERS = {'get_passphrase': 'a passphrase', 'to_key': 'a derived key',
           'key_from_passphrase': 'a derived key',
           'decrypt_encrypted_key_portion': 'private key values'}
# calls whose results no longer tell the secret
SAFE = {'len', 'isinstance', 'bool', 'type', 'id', 'hasattr', 'callable',
        'issubclass', 'encrypt', 'sign', 'verify', 'is_locked', 'exists',
        'validate', 'checksum', 'startswith', 'endswith', 'isdigit',
        'bit_length', 'size', 'locked', 'super', 'count', 'find', 'index',
        'ord_', 'range', 'can_encrypt', 'can_sign', 'has_private'}
SAFE_ATTRS = {'__class__', '__name__', '__module__', '__doc__', 'key_id',
              'fingerprint', 'block_size', 'key_size', 'digest_size', 'size',
              'type', 'header_format', 'version', 'raw_type', 'pos'}
DECRYPT = {'decrypt': 'a decrypted value'}
ADDERS = {'update', 'append', 'extend', 'write', 'insert', 'add',
          'setdefault', 'appendleft'}
REPRS = ('__repr__', '__str__', '__unicode__', '__format__')
LOGS = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log',
        'warn', 'fatal'}


class Taint(object):

    def __init__(self, names, skip=()):
        self.n = names
        self.funcs = {}
        self.attrs = {}          # (class node, attribute) -> labels
        self.params = {}         # (function, index) -> labels
        self.rets = {}           # function -> labels
        self.by_attr = {}
        self.findings = {}
        self.sinks = 0
        self.calls = 0
        for m in names.modules.values():
            if any(m.name == s or m.name.startswith(s + '.') for s in skip):
                continue
            for f in ast.walk(m.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[f] = m
        self.owner = {}
        for c in names.classes.values():
            for f in c.methods.values():
                self.owner[f] = c
            for a in c.own | c.attrs:
                self.by_attr.setdefault(a, []).append(c)
        self.methods = {}
        for c in names.classes.values():
            if c.name.startswith('I') and c.name[1:2].isupper() and \
                    c.module.name.endswith('interfaces'):
                continue
            for nm, f in c.methods.items():
                self.methods.setdefault(nm, []).append((c, f))
        self.module_vars = {}

    def run(self):
        for i in range(30):
            self.changed = False
            self.sinks = self.calls = 0
            for f, m in self.funcs.items():
                Func(self, f, m).run()
            if not self.changed:
                return
        raise RuntimeError('no fixpoint')

    def put(self, table, key, labels):
        labels = {x for x in labels if isinstance(x, str)} \
            if table is not self.rets else labels
        old = table.setdefault(key, set())
        if not labels <= old:
            old |= labels
            self.changed = True

    def attr_of(self, cls, attr):
        out = set()
        for c in self.n.mro(cls) if cls is not None else ():
            out |= self.attrs.get((c.node, attr), set())
        return out


class Func(object):

    def __init__(self, t, f, m):
        self.t = t
        self.f = f
        self.m = m
        self.cls = t.owner.get(f)
        a = f.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        self.names = [x.arg for x in ps]
        if a.vararg:
            self.names.append(a.vararg.arg)
        if a.kwarg:
            self.names.append(a.kwarg.arg)
        self.env = {}
        for i, p in enumerate(self.names):
            self.env[p] = set() if STRUCTURE.match(p) else {i}
            if NAMED.match(p) and not PUBLIC_NAMED.search(p):
                t.put(t.params, (f, i), {p.strip('_')})
        self.first = self.names[0] if self.cls is not None and \
            self.names and kind(f) == 'method' else None
        # variables of an enclosing function
        n = f
        self.outer = None
        while getattr(n, '_parent', None) is not None:
            n = n._parent
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.outer = n
                break

    def secrets(self, labels):
        out = set()
        for x in labels:
            if isinstance(x, str):
                out.add(x)
            else:
                out |= self.t.params.get((self.f, x), set())
        return out

    def run(self):
        before = None
        for i in range(6):
            self.ret = set()
            for s in self.f.body:
                self.stmt(s)
            now = {k: frozenset(v) for k, v in self.env.items()}
            if now == before:
                break
            before = now
        self.t.put(self.t.rets, self.f, self.ret)
        nm = self.f.name
        if nm in REPRS and \
                not self.serialises():
            self.t.sinks += 1
            self.leak(self.f, self.ret, 'the result of %s' % nm)

    def serialises(self):
        # text that is the value itself
        return self.f.name == '__str__' and any(
            '__bytes__' in c.methods or 'from_ascii' in c.methods
            for c in self.t.n.mro(self.cls)) if self.cls else False

    def leak(self, node, labels, how):
        s = self.secrets(labels)
        if s:
            self.t.findings[(self.f, getattr(node, 'lineno', 0), how)] = (
                self.m, self.f, node, how, sorted(s))

    # ------------------------------------------------------- statements
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is None:
                return
            v = self.ex(s.value)
            for t in (s.targets if isinstance(s, ast.Assign)
                      else [s.target]):
                self.assign(t, v, s.value)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.ret |= self.ex(s.value)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.assign(s.target, self.ex(s.iter))
            for b in s.body + s.orelse:
                self.stmt(b)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ex(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v)
            for b in s.body:
                self.stmt(b)
            return
        if isinstance(s, ast.Raise):
            self.t.sinks += 1
            if s.exc is not None:
                e = s.exc
                if isinstance(e, ast.Call):
                    lab = set()
                    for a in e.args:
                        lab |= self.text(a)
                    for k in e.keywords:
                        lab |= self.text(k.value)
                    self.ex(e)
                else:
                    lab = self.ex(e)
                self.leak(s, lab, 'an exception')
            return
        if isinstance(s, ast.Assert):
            self.ex(s.test)
            if s.msg is not None:
                self.t.sinks += 1
                self.leak(s, self.ex(s.msg), 'an exception')
            return
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.stmt):
                self.stmt(n)
            elif isinstance(n, ast.expr):
                self.ex(n)
            elif isinstance(n, ast.ExceptHandler):
                for b in n.body:
                    self.stmt(b)

    def text(self, e):
        return self.ex(e)

    def assign(self, t, v, value=None):
        if isinstance(t, ast.Name):
            if STRUCTURE.match(t.id):
                v = set()
            self.env.setdefault(t.id, set()).update(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(t.elts):
                for x, y in zip(t.elts, value.elts):
                    self.assign(x, self.ex(y), y)
            else:
                for x in t.elts:
                    self.assign(x, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            if self.first is not None and isinstance(t.value, ast.Name) and \
                    t.value.id == self.first:
                self.t.put(self.t.attrs, (self.cls.node, t.attr),
                           self.secrets(v))
        elif isinstance(t, ast.Subscript):
            b = t.value
            if isinstance(b, ast.Name) and b.id in self.env:
                self.env[b.id] |= v

    # ------------------------------------------------------ expressions
    def ex(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return set()
        if isinstance(e, ast.Name):
            out = set(self.env.get(e.id, ()))
            if NAMED.match(e.id) and e.id not in self.names and \
                    e.id in self.env and not PUBLIC_NAMED.search(e.id):
                out.add(e.id.strip('_'))
            return out
        if isinstance(e, ast.Compare):
            self.ex(e.left)
            for x in e.comparators:
                self.ex(x)
            return set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.ex(e.operand)
            return set()
        if isinstance(e, ast.Attribute):
            return self.attribute(e)
        if isinstance(e, ast.Subscript):
            self.ex(e.slice)
            return self.ex(e.value)
        if isinstance(e, ast.IfExp):
            self.ex(e.test)
            return self.ex(e.body) | self.ex(e.orelse)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            for g in e.generators:
                self.assign(g.target, self.ex(g.iter))
                for i in g.ifs:
                    self.ex(i)
            if isinstance(e, ast.DictComp):
                return self.ex(e.key) | self.ex(e.value)
            return self.ex(e.elt)
        if isinstance(e, ast.NamedExpr):
            v = self.ex(e.value)
            self.assign(e.target, v)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.ret |= self.ex(e.value)
            return set()
        out = set()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword)):
                out |= self.ex(x.value if isinstance(x, ast.keyword) else x)
        return out

    def attribute(self, e):
        base = self.ex(e.value)
        if e.attr in SAFE_ATTRS or STRUCTURE.match(e.attr):
            return set()
        own = self.first is not None and isinstance(e.value, ast.Name) and \
            e.value.id == self.first
        out = set()
        if e.attr in SECRET_ATTRS or (
                NAMED.match(e.attr) and not PUBLIC_NAMED.search(e.attr)):
            out.add(e.attr.strip('_'))
        if e.attr in KEY_ATTRS and 'key' in ast.unparse(e.value).lower():
            out.add('a private key value')
        if e.attr == 'prime_p' and own and 'Secret' in self.cls.name:
            out.add('prime_p')
        if e.attr in ('data', '_data', 'content', 'text') and (
                own and re.search(r'Literal|Message$', self.cls.name) or
                re.search(r'(^|_)(literal|plain|decrypted|message|msg)',
                          ast.unparse(e.value).split('.')[-1])) and \
                self.f.name in REPRS:
            out.add('a plaintext')
        if e.attr == '__dict__' and own:
            out |= self.everything()
        if own:
            for c in self.t.n.family(self.cls):
                out |= self.t.attr_of(c, e.attr)
            # a property
            for c, f in self.t.methods.get(e.attr, ()):
                if c in self.t.n.mro(self.cls) and kind(f) == 'property':
                    out |= {x for x in self.t.rets.get(f, ())
                            if isinstance(x, str)}
            return out
        cs = [c for c in self.t.by_attr.get(e.attr, ())
              if not c.module.name.endswith('interfaces')]
        if cs and all(self.t.attrs.get((c.node, e.attr)) for c in cs):
            for c in cs:
                out |= self.t.attrs[(c.node, e.attr)]
        if not cs or e.attr in ('args', 'message'):
            out |= base
        return out

    def everything(self):
        out = set()
        for c in self.t.n.family(self.cls):
            for k in self.t.n.mro(c):
                for a in k.own | k.attrs:
                    if a in SECRET_ATTRS:
                        out.add(a)
                    out |= self.t.attrs.get((k.node, a), set())
        return out

    def call(self, e):
        self.t.calls += 1
        fn = e.func
        nm = getattr(fn, 'id', getattr(fn, 'attr', ''))
        args = [self.ex(a.value if isinstance(a, ast.Starred) else a)
                for a in e.args]
        kws = {k.arg: self.ex(k.value) for k in e.keywords}
        every = set().union(*args, *kws.values()) if args or kws else set()
        recv = self.ex(fn.value if isinstance(fn, ast.Attribute) else fn)
        self.sink(e, fn, nm, args, kws, every)
        if isinstance(fn, ast.Attribute) and nm in ADDERS and \
                isinstance(fn.value, ast.Name) and fn.value.id in self.env:
            self.env[fn.value.id] |= every
        targets = self.targets(e, fn, nm)
        out = set()
        if nm in ('vars', 'getattr') and self.first is not None and \
                e.args and isinstance(e.args[0], ast.Name) and \
                e.args[0].id == self.first and not (
                    nm == 'getattr' and isinstance(e.args[1], ast.Constant)):
            out |= self.everything()
        if nm in MAKERS:
            out.add(MAKERS[nm])
        if nm in GETTERS:
            out.add(GETTERS[nm])
        if nm == 'randint' or nm == 'randrange':
            out.add('a random value')
        if targets:
            for f, skip, obj in targets:
                out |= self.into(f, skip, e, args, kws, recv)
            if nm in DECRYPT and not self.own_object(fn, targets):
                out.add(DECRYPT[nm])
            return out if nm not in SAFE else set()
        if nm in SAFE:
            return out
        if nm in DECRYPT and isinstance(fn, ast.Attribute):
            out.add(DECRYPT[nm])
        return out | every | recv

    def own_object(self, fn, targets):
        """Decrypting a message gives another message."""
        return isinstance(fn, ast.Attribute) and not re.search(
            r'cipher|key', ast.unparse(fn.value), re.I)

    def into(self, f, skip, e, args, kws, recv):
        """Binds the arguments of a call; the labels of its result."""
        ps = [x.arg for x in f.args.posonlyargs + f.args.args]
        allp = ps + [x.arg for x in f.args.kwonlyargs]
        if f.args.vararg:
            allp.append(f.args.vararg.arg)
        if f.args.kwarg:
            allp.append(f.args.kwarg.arg)
        given = {}
        pos = ps[1:] if skip else ps
        if skip and ps and skip != 'new':
            given[0] = recv
        star = any(isinstance(a, ast.Starred) for a in e.args)
        for i, v in enumerate(args):
            if star:
                for p in pos:
                    given.setdefault(allp.index(p), set()).update(v)
            elif i < len(pos):
                given[allp.index(pos[i])] = v
            elif f.args.vararg:
                given.setdefault(allp.index(f.args.vararg.arg),
                                 set()).update(v)
        for k, v in kws.items():
            if k in allp:
                given[allp.index(k)] = v
            elif f.args.kwarg:
                given.setdefault(allp.index(f.args.kwarg.arg),
                                 set()).update(v)
        if PARSERS.match(f.name):
            return set()
        for i, v in given.items():
            if STRUCTURE.match(allp[i]):
                continue
            self.t.put(self.t.params, (f, i), self.secrets(v))
        if skip == 'new' or PARSERS.match(f.name):
            return set()
        out = set()
        for x in self.t.rets.get(f, ()):
            if isinstance(x, str):
                out.add(x)
            else:
                out |= given.get(x, set())
        return out

    def targets(self, e, fn, nm):
        """[(function, is self given?, object)]"""
        names = self.t.n
        r = self.resolve(fn)
        if r is not None and r[0] == 'def':
            if isinstance(r[2], ast.ClassDef):
                for c in linear(names, names.classes[r[2]]):
                    if '__init__' in c.methods:
                        return [(c.methods['__init__'], 'new', None)]
                return []
            return [(r[2], False, None)]
        if isinstance(fn, ast.Name) and fn.id == 'cls' and \
                self.cls is not None:
            out = []
            for leaf in names.family(self.cls):
                for c in linear(names, leaf):
                    if '__init__' in c.methods:
                        out.append((c.methods['__init__'], 'new', None))
                        break
            return out
        if isinstance(fn, ast.Name):
            # a function defined in this one
            for n in scope_nodes(self.f.body):
                if isinstance(n, ast.FunctionDef) and n.name == fn.id:
                    return [(n, False, None)]
            return []
        if not isinstance(fn, ast.Attribute):
            return []
        rb = self.resolve(fn.value)
        if rb is not None and rb[0] == 'def' and isinstance(
                rb[2], ast.ClassDef):
            x = names.method(names.classes[rb[2]], nm)
            if x is not None:
                return [(x[1], kind(x[1]) == 'classmethod', None)]
        if rb is not None and rb[0] in ('mod', 'unknown'):
            return []
        cands = self.t.methods.get(nm, ())
        if self.first is not None and isinstance(fn.value, ast.Name) and \
                fn.value.id == self.first:
            fam = set()
            for c in names.family(self.cls):
                fam |= set(names.mro(c))
            got = [(f, kind(f) != 'staticmethod', None) for c, f in cands
                   if c in fam]
            if got:
                return got
        from .names import EXTERNAL
        if nm in EXTERNAL and nm not in ('decrypt', 'get_passphrase'):
            return []
        return [(f, kind(f) != 'staticmethod', None) for c, f in cands]

    def resolve(self, e):
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name) or x.id in self.env:
            return None
        return self.t.n.resolve_expr(self.m, e)

    # ------------------------------------------------------------ sinks
    def sink(self, e, fn, nm, args, kws, every):
        how = None
        src = ast.unparse(fn)
        if isinstance(fn, ast.Name) and nm in ('print', 'pprint'):
            how = 'printed text'
            every = set().union(set(), *args)
        elif nm in ('warn', 'warn_explicit') and 'warn' in src:
            how = 'a warning'
        elif isinstance(fn, ast.Attribute) and nm in LOGS and re.search(
                r'log', ast.unparse(fn.value), re.I):
            how = 'a log record'
        elif nm in ('write', 'writelines') and re.search(
                r'std(out|err)|err_stream', src):
            how = 'an output stream'
        elif src in ('sys.exit', 'traceback.print_exc', 'pprint.pprint',
                     'syslog.syslog', 'syslog'):
            how = 'output'
        elif self.exception(fn) and not isinstance(
                getattr(e, '_parent', None), ast.Raise):
            how = 'an exception'
        if how is not None:
            self.t.sinks += 1
            self.leak(e, every, how)

    def exception(self, fn):
        nm = getattr(fn, 'id', getattr(fn, 'attr', ''))
        r = self.resolve(fn)
        if r is not None and r[0] == 'def' and isinstance(
                r[2], ast.ClassDef):
            c = self.t.n.classes[r[2]]
            return any('with_traceback' in x.attrs
                       for x in self.t.n.mro(c))
        return nm in ('ValueError', 'TypeError', 'KeyError', 'RuntimeError',
                      'Exception', 'IOError', 'OSError', 'AssertionError')
