"""Equality of two value graphs by case splitting on their gates.

Two gated terms are compared leaf by leaf: every atomic gate occurring in
either graph is split on, both graphs are simplified under the assumption, and
the ungated leaves must have the same normal form.  Gate combinations that are
infeasible (integer intervals, equality with different constants) are pruned.
"""
from . import terms as tm
from .terms import mk, const, cval, is_const, is_int_const

INF = float('inf')


class Env(object):
    """What a path through the gates assumes."""
    __slots__ = ('facts', 'iv', 'ne', 'subst', 'atoms')

    def __init__(self):
        self.facts = {}     # atom -> bool
        self.iv = {}        # term -> (lo, hi)
        self.ne = {}        # term -> frozenset of excluded constants
        self.subst = {}     # term -> constant term
        self.atoms = ()

    def copy(self):
        e = Env()
        e.facts = dict(self.facts)
        e.iv = dict(self.iv)
        e.ne = dict(self.ne)
        e.subst = dict(self.subst)
        e.atoms = self.atoms
        return e

    def base_range(self, t):
        if is_int_const(t):
            v = int(cval(t))
            return v, v
        lo, hi = -INF, INF
        if t.op in ('len', 'bitlen', 'idx', 'mpilen', 'digestlen'):
            lo = 0
        if t.op == 'mpi':
            lo = 0
        w = tm.max_width(t)
        if t.op == 'exactint':
            lo, hi = (1 << t.args[1]) >> 1, (1 << t.args[1]) - 1
        elif w is not None:
            lo, hi = 0, (1 << w) - 1
        elif t.op == 'bits':
            a, b = self.range(t.args[0])
            if a >= 0:
                lo = 0
                if b < INF and t.args[2] is None:
                    hi = int(b) >> t.args[1]
                    lo = int(a) >> t.args[1]
                elif b < INF:
                    hi = min((1 << t.args[2]) - 1, int(b) >> t.args[1])
            if t.args[2] is not None:
                lo, hi = max(lo, 0), min(hi, (1 << t.args[2]) - 1)
        if t.op == 'lin':
            l = h = t.args[0]
            for a, k in t.args[1]:
                x, y = self.range(a)
                if k < 0:
                    x, y = y, x
                l += x * k
                h += y * k
            lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def range(self, t):
        lo, hi = self.base_range(t)
        r = self.iv.get(t)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        ne = self.ne.get(t)
        if ne:
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
        return lo, hi

    def eval_atom(self, a):
        """True/False/None."""
        v = self.facts.get(a)
        if v is not None:
            return v
        n = self.facts.get(tm.not_(a))
        if n is not None:
            return not n
        if a.op == 'bool' or a.op in ('xcall', 'mcall', 'call'):
            v = self.facts.get(a.args[0] if a.op == 'bool' else
                               mk('bool', a))
            if v is not None:
                return v
        if a.op == 'cmp':
            op, x, y = a.args
            if op in ('<=', '>=') and is_int_const(y):
                lo, hi = self.range(x)
                c = cval(y)
                if op == '<=':
                    if hi <= c:
                        return True
                    if lo > c:
                        return False
                else:
                    if lo >= c:
                        return True
                    if hi < c:
                        return False
            if op in ('==', '!='):
                for p, q in ((x, y), (y, x)):
                    if is_int_const(q):
                        lo, hi = self.range(p)
                        c = cval(q)
                        if c < lo or c > hi or c in self.ne.get(p, ()):
                            return op == '!='
                        if lo == hi == c:
                            return op == '=='
                    elif is_const(q):
                        if cval(q) in self.ne.get(p, ()):
                            return op == '!='
                d = None
                if (tm.type_of(x) == 'int' and tm.type_of(y) == 'int'):
                    d = self.base_range(tm.sub(x, y))
                    if d[0] > 0 or d[1] < 0:
                        return op == '!='
        return None

    def assume(self, a, val):
        """Add atom a == val; False if infeasible."""
        v = self.eval_atom(a)
        if v is not None:
            if v != val:
                return False
            self.facts[a] = val
            return True
        self.facts[a] = val
        self.atoms = self.atoms + ((a, val),)
        if a.op == 'not':
            return self.assume(a.args[0], not val)
        if a.op == 'cmp':
            op, x, y = a.args
            if op == '!=':
                op, val = '==', not val
            if op in ('<=', '>=') and is_int_const(y):
                c = cval(y)
                if not val:
                    op, c = ('>=', c + 1) if op == '<=' else ('<=', c - 1)
                lo, hi = self.iv.get(x, (-INF, INF))
                if op == '<=':
                    hi = min(hi, c)
                else:
                    lo = max(lo, c)
                self.iv[x] = (lo, hi)
                l, h = self.range(x)
                if l > h:
                    return False
                if l == h and not is_const(x) and x.op != 'lin':
                    self.subst[x] = const(l)
                self.propagate_lin(x)
            elif op == '==':
                for p, q in ((x, y), (y, x)):
                    if is_const(q) and not is_const(p):
                        if val:
                            self.subst[p] = q
                            if is_int_const(q):
                                self.iv[p] = (cval(q), cval(q))
                                self.whole_read(p, int(cval(q)))
                        else:
                            self.ne[p] = self.ne.get(p, frozenset()) | {
                                cval(q)} if hashable(cval(q)) else \
                                self.ne.get(p, frozenset())
                            l, h = self.range(p)
                            if l > h:
                                return False
                        break
            elif op == 'is' and val and y is tm.NONE:
                self.subst[x] = tm.NONE
        elif not val and tm.type_of(a) == 'bool' and a.op != 'cmp':
            self.subst[a] = tm.FALSE
        return True

    def whole_read(self, p, v):
        """All octets of a field are known once its value is."""
        if p.op == 'rd' and p.args[0].op == 'fixed' and \
                p.args[1] is const(0):
            n = p.args[2]
            n = int(cval(n)) if isinstance(n, tm.T) else n
            if tm.length(p.args[0]) is const(n) and 0 <= v < 256 ** n:
                self.subst[p.args[0]] = const(v.to_bytes(n, 'big'))

    def propagate_lin(self, x):
        """x = sum k_i a_i in [lo,hi] with two atoms: nothing for now."""
        return


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def find_gate(t, env):
    """First undecided atomic gate in t."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'phi':
            a = first_atom(x.args[0], env)
            if a is not None:
                return a
        elif x.op == 'bseq':
            for p in walk_alts(x.args):
                a = first_atom(p, env)
                if a is not None:
                    return a
        elif x.op in ('and', 'or', 'not', 'bool', 'cmp') or \
                tm.type_of(x) == 'bool':
            if x.op != 'const':
                a = first_atom(x, env)
                if a is not None and a is not x:
                    return a
                if x is t and a is not None:
                    return a
        stack.extend(reversed(list(tm.children(x))))
    return None


def walk_alts(parts):
    for p in parts:
        if p[0] == 'alt':
            yield p[1]
            for q in walk_alts(p[2]):
                yield q
            for q in walk_alts(p[3]):
                yield q
        elif p[0] == 'rep':
            pass


def first_atom(c, env):
    if c.op in ('and', 'or', 'not', 'bool'):
        if c.op == 'bool':
            v = truthv(c, env)
            if v is None:
                if c.args[0].op == 'phi':
                    return first_atom(c.args[0], env)
                return c
            return None
        for x in c.args:
            if c.op == 'not' and tm.type_of(x) != 'bool' and \
                    x.op in ('xcall', 'mcall', 'call'):
                x = mk('bool', x)
            a = first_atom(x, env)
            if a is not None:
                return a
        return None
    if c.op == 'phi':
        a = first_atom(c.args[0], env)
        if a is not None:
            return a
        for x in c.args[1:]:
            if tm.type_of(x) == 'bool' and x.op != 'const':
                a = first_atom(x, env)
                if a is not None:
                    return a
        return None
    if c.op == 'const':
        return None
    # gates inside the atom's own operands first
    if c.op == 'cmp':
        for x in c.args[1:]:
            g = find_gate(x, env)
            if g is not None and g is not c:
                return g
    if env.eval_atom(c) is None:
        return c
    return None


def truthv(c, env):
    return env.eval_atom(c)


def simplify(t, env):
    memo = {}

    def fn(x):
        s = env.subst.get(x)
        if s is not None:
            return s
        if x.op in ('cmp', 'isinst', 'bool', 'sym', 'attr', 'call', 'mcall',
                    'exists', 'forall', 'not') and x.op != 'const':
            v = env.facts.get(x)
            if v is None and x.op in ('cmp', 'bool', 'not'):
                v = env.eval_atom(x)
            if v is not None and (tm.type_of(x) == 'bool' or x.op == 'bool'):
                return const(v)
        return None
    r = tm.rewrite(t, fn, memo)
    # comparisons rebuilt after substitution may now be decided
    for _ in range(3):
        memo = {}
        r2 = tm.rewrite(r, fn, memo)
        if r2 is r:
            break
        r = r2
    return r


class Diff(object):
    def __init__(self, env, a, b):
        self.env = env
        self.a = a
        self.b = b

    def when(self):
        out = []
        for a, v in self.env.atoms:
            if a.op == 'cmp' and not v:
                a = tm.not_simple(a)
                out.append(tm.show(a, 6))
            else:
                out.append(tm.show(a, 6) if v else
                           'not ' + tm.show(a, 6))
        return ' and '.join(out) or 'always'

    def __repr__(self):
        return 'when %s: %s  vs  %s' % (self.when(), tm.show(self.a, 9),
                                        tm.show(self.b, 9))


class TooMany(Exception):
    pass


def compare(a, b, env=None, limit=4000, maxdiff=5, leaf=None):
    """-> (list of Diff, number of leaf cases compared)"""
    env = env or Env()
    diffs = []
    count = [0]

    def go(a, b, env):
        if len(diffs) >= maxdiff:
            return
        a = simplify(a, env)
        b = simplify(b, env)
        if a is b:
            count[0] += 1
            return
        g = find_gate(a, env)
        if g is None:
            g = find_gate(b, env)
        if g is None:
            count[0] += 1
            if count[0] > limit:
                raise TooMany()
            if not (leaf or leaf_equal)(a, b, env):
                diffs.append(Diff(env, a, b))
            return
        for val in (True, False):
            e = env.copy()
            if not e.assume(g, val):
                continue
            go(a, b, e)
        count[0] += 1
        if count[0] > limit:
            raise TooMany()

    go(a, b, env)
    return diffs, count[0]


def leaf_equal(a, b, env):
    if a is b:
        return True
    if a.op != b.op:
        ca, cb = as_num(a), as_num(b)
        if ca is not None and ca == cb:
            return True
    return False


def as_num(t):
    if is_const(t) and isinstance(cval(t), (bool, int, float)):
        return float(cval(t))
    return None


def cases(t, env=None, limit=4000):
    """All (env, leaf) pairs of a gated term."""
    env = env or Env()
    out = []

    def go(t, env):
        t = simplify(t, env)
        g = find_gate(t, env)
        if g is None:
            out.append((env, t))
            if len(out) > limit:
                raise TooMany()
            return
        for val in (True, False):
            e = env.copy()
            if e.assume(g, val):
                go(t, e)
    go(t, env)
    return out


def env_of(*facts):
    """Environment assuming the given boolean terms (atoms or conjunctions)."""
    env = Env()
    for f in facts:
        for x in (f.args if f.op == 'and' else (f,)):
            if not env.assume(x, True):
                raise ValueError('inconsistent facts')
    return env
