"""Staged verification of generated code: the real compiler is run on a
template, the module it generates is written to the scratch directory, and
the generated methods are executed symbolically together with the run-time
library code they call."""
import builtins
import importlib
import os
import random
import sys
import time
import z3

from pyvc.values import *  # noqa
from pyvc.runner import Unit
from pyvc import models as M

_n = [0]


def generate(scratch, source, **kw):
    from Cheetah.Template import Template
    _n[0] += 1
    name = 'gen_%d_%d' % (os.getpid(), _n[0])
    st = random.getstate()
    random.seed(7)
    try:
        code = Template.compile(source, returnAClass=False, moduleName=name,
                                cacheCompilationResults=False,
                                useCache=False, **kw)
    finally:
        random.setstate(st)
    d = os.path.join(scratch, 'gen')
    os.makedirs(d, exist_ok=True)
    if isinstance(code, str):
        code = code.encode('utf-8')
    with open(os.path.join(d, name + '.py'), 'wb') as f:
        f.write(code)
    if d not in sys.path:
        sys.path.insert(0, d)
    importlib.invalidate_caches()
    return getattr(importlib.import_module(name), name)


class StagedUnit(Unit):
    """hooks for the run-time environment of generated code"""
    lookups = {}

    def lookup(self, it, name):
        """value of the placeholder name; override"""
        raise NotImplementedError

    def on_call(self, it, f, args, kw):
        import Cheetah.NameMapper as NM
        if f is builtins.locals or f is builtins.globals:
            return {}
        if f is time.time:
            return self.now(it)
        if f in (NM.valueFromSearchList, NM.valueFromFrameOrSearchList):
            return self.lookup(it, args[1])
        if f is NM.valueForName:
            return self.lookup_in(it, args[0], args[1])
        return NotImplemented

    def lookup_in(self, it, obj, name):
        from pyvc.core import Unsupported
        raise Unsupported('valueForName in generated code')

    def now(self, it):
        """the clock never goes backwards"""
        c = it.ctx
        t = SReal(c.fresh('now'))
        last = c.ghost.get('clock')
        c.assume(t.e > 0)
        if last is not None:
            c.assume(t.e >= last)
        else:
            c.ghost['clock0'] = t.e
        c.ghost['clock'] = t.e
        return t

    def render(self, it, inst):
        return it.call(inst.respond, [], {})
