"""Local variables that are read on a path on which nothing has bound them.

Paths are told apart by what is known of the conditions on them; a condition
that was decided before is not decided otherwise as long as the variables in
it keep their values.  Loops are taken to run at least once, unless
`empty_loops` is set."""
import ast

from .names import scope_nodes

LIMIT = 3000


class TooMany(Exception):
    pass


def bind_names(n):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return [n.id]
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return [n.name]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in n.names]
    if isinstance(n, ast.ExceptHandler) and n.name:
        return [n.name]
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        return [n.name]
    return []


def atoms(e, val):
    """[[(source, value)]]: the ways in which e can be val."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return atoms(e.operand, not val)
    if isinstance(e, ast.BoolOp):
        every = isinstance(e.op, ast.And) == val
        if every:
            out = [[]]
            for x in e.values:
                out = [a + b for a in out for b in atoms(x, val)]
            return out
        out = []
        done = [[]]
        for x in e.values:
            out += [a + b for a in done for b in atoms(x, val)]
            done = [a + b for a in done for b in atoms(x, not val)]
        return out
    if isinstance(e, ast.Constant):
        return [[]] if bool(e.value) == val else []
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op, neg = e.ops[0], {ast.NotEq: ast.Eq, ast.IsNot: ast.Is,
                             ast.NotIn: ast.In, ast.GtE: ast.Lt,
                             ast.Gt: ast.LtE}
        l, r = ast.unparse(e.left), e.comparators[0]
        for k, p in neg.items():
            if isinstance(op, k):
                op, val = p(), not val
                break
        if isinstance(op, (ast.Eq, ast.Is)):
            return [[(('==', l, ast.unparse(r)), val)]]
        if isinstance(op, ast.In) and isinstance(r, (ast.Tuple, ast.List,
                                                     ast.Set)):
            one = [(('==', l, ast.unparse(x)), True) for x in r.elts]
            if val:
                return [[x] for x in one]
            return [[(a, False) for a, _ in one]]
        return [[((type(op).__name__, l, ast.unparse(r)), val)]]
    return [[(('', ast.unparse(e)), val)]]


def words(src):
    try:
        return {n.id for n in ast.walk(ast.parse(src, mode='eval'))
                if isinstance(n, ast.Name)}
    except SyntaxError:
        return set()


class State(object):
    __slots__ = ('have', 'facts')

    def __init__(self, have, facts):
        self.have = have
        self.facts = facts

    def key(self):
        return self.have, self.facts

    def bind(self, names):
        names = frozenset(names)
        facts = frozenset(
            f for f in self.facts
            if not any(words(x) & names for x in f[0][1:]))
        return State(self.have | names, facts)

    def assume(self, conj):
        facts = dict(self.facts)
        for a, v in conj:
            if facts.get(a, v) != v:
                return None
            if a[0] == '==' and v:
                for b, w in facts.items():
                    # equal to something else already
                    if b[0] == '==' and w and b[1] == a[1] and \
                            b[2] != a[2] and const(a[2]) and const(b[2]):
                        return None
            facts[a] = v
        return State(self.have, frozenset(facts.items()))


def const(src):
    """Does the source stand for a constant?"""
    try:
        e = ast.parse(src, mode='eval').body
    except SyntaxError:
        return False
    if isinstance(e, ast.Constant):
        return True
    return isinstance(e, ast.Attribute) and e.attr.isupper() or \
        isinstance(e, ast.Name) and e.id.isupper()


class Flow(object):

    def __init__(self, f, empty_loops=False):
        self.f = f
        self.empty = empty_loops
        decl, local, comp = set(), set(), set()
        for n in scope_nodes(f.body):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl.update(n.names)
            local.update(bind_names(n))
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        comp.add(x.id)
        a = f.args
        args = {x.arg for x in ast.walk(a) if isinstance(x, ast.arg)}
        # a name deleted or of an exception is not followed
        gone = {x for n in scope_nodes(f.body)
                for x in (bind_names(n) if isinstance(n, ast.ExceptHandler)
                          or isinstance(n, ast.Name) and isinstance(
                              n.ctx, ast.Del) else [])}
        self.local = local - decl - args - comp - gone
        self.bad = {}
        # what is tested once only need not be remembered
        self.often = {}
        for n in scope_nodes(f.body):
            for t in (getattr(n, 'test', None),
                      n if isinstance(n, ast.BoolOp) else None):
                if isinstance(t, ast.expr):
                    for v in (True, False):
                        for a in {a for conj in atoms(t, v)
                                  for a, _ in conj}:
                            self.often.setdefault(a[:2], set()).add(id(n))
        self.known = {k for k, v in self.often.items() if len(v) > 1}

    def run(self):
        self.breaks = []
        self.conts = []
        self.block(self.f.body, [State(frozenset(), frozenset())])
        return sorted(self.bad.values(), key=lambda n: n.lineno)

    def read(self, e, sts):
        """Reads of an expression, evaluated in each of the states."""
        if e is None or isinstance(e, (ast.Lambda, ast.FunctionDef,
                                       ast.ClassDef)):
            return sts
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return self.read(e.generators[0].iter, sts)
        if isinstance(e, ast.NamedExpr):
            sts = self.read(e.value, sts)
            return [s.bind([e.target.id]) for s in sts]
        if isinstance(e, ast.BoolOp):
            val = isinstance(e.op, ast.And)
            cur = sts
            out = []
            for i, x in enumerate(e.values):
                cur = self.read(x, cur)
                if i < len(e.values) - 1:
                    out += self.where(cur, x, not val)
                    cur = self.where(cur, x, val)
            return self.norm(out + cur)
        if isinstance(e, ast.IfExp):
            sts = self.read(e.test, sts)
            return self.norm(
                self.read(e.body, self.where(sts, e.test, True)) +
                self.read(e.orelse, self.where(sts, e.test, False)))
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                for s in sts:
                    if e.id not in s.have:
                        self.bad.setdefault(e.id, e)
            elif isinstance(e.ctx, ast.Store):
                return [s.bind([e.id]) for s in sts]
            return sts
        for x in ast.iter_child_nodes(e):
            sts = self.read(x, sts)
        if isinstance(e, ast.Call):
            # may change what it is given
            used = {('', x.id) for x in e.args if isinstance(x, ast.Name)}
            if isinstance(e.func, ast.Attribute) and isinstance(
                    e.func.value, ast.Name):
                used.add(('', e.func.value.id))
            if used:
                sts = [State(s.have, frozenset(
                    f for f in s.facts if f[0] not in used)) for s in sts]
        return sts

    def norm(self, sts):
        out = {}
        for s in sts:
            out.setdefault(s.key(), s)
        if len(out) > LIMIT:
            raise TooMany()
        return list(out.values())

    def where(self, sts, test, val):
        out = []
        for conj in atoms(test, val):
            for s in sts:
                n = s.assume(conj)
                if n is not None:
                    n.facts = frozenset(f for f in n.facts if f in s.facts or
                                        f[0][:2] in self.known)
                    out.append(n)
        return self.norm(out)

    def block(self, body, sts, log=None):
        for s in body:
            if not sts:
                break
            sts = self.norm(self.stmt(s, sts))
            if log is not None:
                log.extend(sts)
        return sts

    def stmt(self, s, sts, chain=False):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef, ast.Import, ast.ImportFrom)):
            return [x.bind(bind_names(s)) for x in sts]
        if isinstance(s, ast.Assign):
            sts = self.read(s.value, sts)
            for t in s.targets:
                sts = self.read(t, sts)
            return self.learn(s, sts)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.local:
                    for x in sts:
                        if s.target.id not in x.have:
                            self.bad.setdefault(s.target.id, s.target)
                sts = self.read(s.value, sts)
                return [x.bind([s.target.id]) for x in sts]
            return self.read(s.target, self.read(s.value, sts))
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return sts
            return self.read(s.target, self.read(s.value, sts))
        if isinstance(s, ast.If):
            sts = self.read(s.test, sts)
            out = self.block(s.body, self.where(sts, s.test, True))
            if not s.orelse and chain:
                return out      # the cases are taken to be all there are
            other = self.where(sts, s.test, False)
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                return out + self.norm(self.stmt(s.orelse[0], other, True))
            return out + self.block(s.orelse, other)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(s, sts)
        if isinstance(s, ast.Try):
            return self.try_(s, sts)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                sts = self.read(i.context_expr, sts)
                if i.optional_vars is not None:
                    sts = self.read(i.optional_vars, sts)
            return self.block(s.body, sts)
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                sts = self.read(x, sts)
            return []
        if isinstance(s, ast.Break):
            self.breaks.extend(sts)
            return []
        if isinstance(s, ast.Continue):
            self.conts.extend(sts)
            return []
        if isinstance(s, ast.Assert):
            sts = self.read(s.test, sts)
            return self.where(sts, s.test, True)
        if isinstance(s, ast.Expr):
            sts = self.read(s.value, sts)
            return [] if self.ends(s.value) else sts
        if isinstance(s, ast.Match):
            raise TooMany()
        for x in ast.iter_child_nodes(s):
            sts = self.read(x, sts)
        return sts

    def ends(self, e):
        """Calls that do not return."""
        if not isinstance(e, ast.Call):
            return False
        nm = getattr(e.func, 'id', getattr(e.func, 'attr', ''))
        return nm in ('exit', '_exit', 'abort', 'error', 'fail')

    def learn(self, s, sts):
        """x = constant."""
        if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
            return sts
        n, v = s.targets[0].id, s.value
        if isinstance(v, ast.Constant):
            facts = [(('', n), bool(v.value)),
                     (('==', n, ast.unparse(v)), True)]
            if v.value is not None:
                facts.append((('==', n, 'None'), False))
        elif isinstance(v, (ast.List, ast.Dict, ast.Tuple)):
            facts = [(('', n), bool(getattr(v, 'elts', None) or
                                    getattr(v, 'keys', None))),
                     (('==', n, 'None'), False)]
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id[:1].isupper():
            # an instance of one class is taken to be none of the others
            facts = []
            for a in self.often:
                if a[1].startswith('isinstance(%s, ' % n):
                    facts.append((a, v.func.id in words(a[1])))
            facts.append((('==', n, 'None'), False))
        else:
            return sts
        facts = [f for f in facts if f[0][:2] in self.often]
        out = []
        for x in sts:
            y = x.assume(facts)
            out.append(y if y is not None else x)
        return out

    def loop(self, s, sts):
        saved = self.breaks, self.conts
        self.breaks, self.conts = [], []
        isfor = not isinstance(s, ast.While)
        sts = self.read(s.iter if isfor else s.test, sts)
        forever = not isfor and isinstance(s.test, ast.Constant) and \
            bool(s.test.value)
        first = sts
        entry, after = first, []
        seen = set()
        for i in range(12):
            if isfor:
                entry = self.read(s.target, entry)
            else:
                if i:
                    entry = self.read(s.test, entry)
                entry = self.where(entry, s.test, True)
            end = self.norm(self.block(s.body, entry) + self.conts)
            self.conts = []
            after = self.norm(after + end)
            entry = [x for x in end if x.key() not in seen]
            seen.update(x.key() for x in entry)
            if not entry:
                break
        else:
            raise TooMany()
        if isfor:
            if self.empty:
                after = after + first
        elif forever:
            after = []
        else:
            after = self.where(after, s.test, False)
            after = after + self.where(first, s.test, False)
        after = self.block(s.orelse, self.norm(after))
        after = after + self.breaks
        self.breaks, self.conts = saved
        return self.norm(after)

    def try_(self, s, sts):
        log = list(sts)
        # an exception comes out of something that was begun: what the
        # statements before it bound is bound
        outer = self.breaks, self.conts
        end = self.block(s.body, sts, log)
        raised = []
        starts = [sts]
        seen = list(log)
        out = self.block(s.orelse, end)
        for h in s.handlers:
            st = self.norm(seen)
            if h.type is not None:
                st = self.read(h.type, st)
            if h.name:
                st = [x.bind([h.name]) for x in st]
            out = out + self.block(h.body, st)
        out = self.norm(out)
        if s.finalbody:
            # also runs when something is raised; what follows it does not
            self.block(s.finalbody, self.norm(seen + out))
            out = self.block(s.finalbody, out)
        return out


def maybe_unbound(f, empty_loops=False):
    try:
        return Flow(f, empty_loops).run()
    except TooMany:
        return None
