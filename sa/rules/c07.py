"""C07: secret values stay out of output, logs, warnings, exceptions and the
textual representations of objects."""
from ..names import Names
from ..taint import Taint
from .c29 import scope_of

SKIP = ('pgp.test_keys', 'pgp.cipher.tests')


def check(c):
    c.rule('flow', 'no secret flows into printed text, a log record, a '
           'warning, an exception or the textual representation of an '
           'object', 20)
    c.guard('flow', 'all', lambda: flows(c))


def flows(c):
    names = Names(c.prog, SKIP)
    t = Taint(names)
    t.run()
    per = {}
    for m, f, node, how, labels in t.findings.values():
        per.setdefault((m.name, f), []).append((node, how, labels))
    for f, m in t.funcs.items():
        q = scope_of(f)
        q = (q + '.' if q else '') + f.name
        key = '%s:%s' % (m.name, q)
        bad = per.get((m.name, f))
        if not bad:
            c.ob('flow', key, True, '', c.where(m.name, f))
            continue
        for node, how, labels in bad:
            c.ob('flow', '%s:%s' % (key, how), False, '%s flows into %s' % (
                ', '.join(labels), how), '%s (%s)' % (
                    c.where(m.name, node), q))
