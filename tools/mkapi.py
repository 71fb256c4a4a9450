#!/usr/bin/env python3
"""Lists the functions of the interface with the parameters they leave alone,
for review; sa/api.txt is the reviewed list.  Not used by any check."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.effects import Effects, params             # noqa: E402
from sa.names import Names, kind                   # noqa: E402
from sa.program import Program                     # noqa: E402
from sa.rules.c30 import SKIP, name_of             # noqa: E402

e = Effects(Names(Program('/repo'), SKIP))
e.run()
for f, m in sorted(e.funcs.items(), key=lambda x: (x[1].name, x[0].lineno)):
    q = name_of(f)
    last = f.name
    if m.name.startswith(('pgp.commands', 'pgp.interfaces', 'pgp.py')) or \
            last.startswith('_') and not last.startswith('__') or \
            last == '__del__' or kind(f) == 'setter' or 'setter' in q:
        continue
    c = e.owner.get(f)
    if c is None and '.' in q:
        continue
    ps = params(f)
    ok = [p for i, p in enumerate(ps) if p not in e.mut[f] and not (
        c is not None and i == 0 and (
            f.name == '__init__' or kind(f) == 'classmethod' or
            kind(f) != 'staticmethod' and m.name.split('.')[1] not in (
                'message', 'transferrable_keys', 'signature', 'packets',
                'armor', 's2k', 'keyserver')))]
    if ok:
        print(m.name, q, *ok)
