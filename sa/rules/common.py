"""Helpers shared by the rule modules."""
import os

from .. import equiv, rint
from .. import terms as tm
from ..ctx import HERE
from ..interp import Interp
from ..program import AnalysisError


def SPEC(c, name):
    mod = 'spec.' + name
    c.prog.add_file(mod, os.path.join(HERE, 'spec', name + '.py'))
    return mod


class Run(object):
    """One abstract interpretation of a function of the package."""

    def __init__(self, c, mod, qual, args=(), kw=None, setup=None, facts=(),
                 intrinsics=None, ip=None, explicit=False):
        if ip is None and intrinsics is None:
            ip = getattr(c, '_shared', None)
            if ip is None:
                ip = c._shared = c.interp()
            ip.events = []
            ip.steps = 0
        self.ip = ip or c.interp(intrinsics=intrinsics)
        if explicit:
            self.ip.explicit_only = True
        node = c.prog.find_def(mod, qual)
        a = {}
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        for n, v in zip(names, args):
            a[n] = v
        a.update(kw or {})
        if setup is not None:
            r = self.ip.run(mod, qual, a, setup=setup, facts=facts)
        else:
            r = self.ip.run(mod, qual, a, facts=facts)
        self.r = r
        self.raises = r.raises
        self.where = c.where(mod, node) + ' (%s.%s)' % (mod, qual)
        self.value = None
        if r.value is not None and r.state is not None:
            self.value = self.ip.snapshot(r.value, r.state)
        # the condition under which the function returns normally
        self.accept = tm.FALSE if r.state is None else tm.and_(
            *[self.ip.snapshot(x, r.state) for x in r.state.path
              if x not in facts]) if r.state.path else tm.TRUE
        if self.value is None:
            self.accept = tm.FALSE
            self.value = tm.mk('noreturn')
