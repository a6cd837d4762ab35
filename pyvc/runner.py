"""Verification units and how they are decided."""
import importlib
import time
import traceback
import z3

from .values import *  # noqa
from .core import Session, PathEnd, Unsupported
from .interp import Interp, PyRaise, SourceIndex
from .world import World


class Outcome(object):
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.value)


class Unit(object):
    """One function under contract.  Subclasses define `target`, `setup` /
    `run`, and whichever hooks their proof needs."""
    target = None
    name = None
    bound = 3
    max_paths = 3000
    budget_s = 120
    bounded_ok = True
    kind = 'python'

    def world(self):
        return World()

    def resolve(self, target=None):
        mod, qual = (target or self.target).split(':')
        o = importlib.import_module(mod)
        for p in qual.split('.'):
            o = o.__dict__[p] if isinstance(o, type) and \
                p in o.__dict__ else getattr(o, p)
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        return o

    def contracts(self):
        return {}

    def outcome(self, it, fn, args, kw=None):
        """run the real body (not its contract) and give its outcome"""
        key = '%s:%s' % (fn.__module__, fn.__qualname__)
        try:
            return Outcome('return', it.call_function(fn, args, kw or {}))
        except PyRaise as e:
            return Outcome('raise', e.exc)

    def run(self, it):
        raise NotImplementedError


class Result(object):
    def __init__(self, unit):
        self.unit = unit
        self.name = unit.name
        self.target = unit.target
        self.status = '?'
        self.why = ''
        self.obligations = 0
        self.discharged = 0
        self.instances = 0
        self.refuted = []
        self.unproved = []
        self.names = []
        self.backends = {}
        self.paths = 0
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.used_contracts = []
        self.inlined = []
        self.assumptions = []

    def as_dict(self):
        return {k: getattr(self, k) for k in (
            'name', 'target', 'status', 'why', 'obligations', 'discharged',
            'instances', 'refuted', 'unproved', 'names', 'backends',
            'paths', 'wall_s', 'used_contracts', 'inlined', 'assumptions')}


def _session(unit, source, mode, bound, deadline, registry):
    s = Session(unit.name, mode, bound, unit.max_paths, deadline)
    s.euf = getattr(unit, 'euf', False)
    reach = [0]
    tries = [0]

    def run(ctx):
        it = Interp(ctx, source, unit, unit.world())
        it.contracts = dict(registry)
        it.contracts.update(unit.contracts())
        it.skip_contract = {unit.target} if not getattr(
            unit, 'recursive', False) else set()
        unit.run(it)
        if reach[0] < 3 and tries[0] < 8:
            tries[0] += 1
            w = unit.witness() if hasattr(unit, 'witness') else []
            for extra in ([[]] if not w else [w, []]):
                fs = z3.Solver()
                fs.set('timeout', 2000)
                fs.add(*ctx.pc)
                fs.add(*extra)
                if fs.check() == z3.sat:
                    reach[0] += 1
                    break
    s.explore(run)
    s.reachable = reach[0]
    return s


def verify(unit, source, registry=None):
    r = Result(unit)
    t0 = time.time()
    deadline = t0 + unit.budget_s
    registry = registry or {}
    try:
        s = _session(unit, source, 'inv', unit.bound, deadline, registry)
    except Unsupported as e:
        r.why = str(e)
        s = None
    except (KeyError, AttributeError, ImportError) as e:
        r.status = 'unreached'
        r.why = 'target not resolvable: %s: %s' % (type(e).__name__, e)
        r.why += '\n' + traceback.format_exc()[-1500:]
        r.wall_s = time.time() - t0
        return r
    except Exception as e:      # engine error: never a verdict
        r.status = 'unreached'
        r.why = 'engine: %s: %s\n%s' % (type(e).__name__, e,
                                        traceback.format_exc()[-3000:])
        r.wall_s = time.time() - t0
        return r
    if s is not None:
        fill(r, s)
        if not s.obls or not s.complete_paths or not s.reachable:
            r.status = 'vacuous'
            r.why = 'no obligation or no feasible path'
        elif all(o.status == 'discharged' for o in s.obls.values()):
            r.status = 'proved'
            if getattr(unit, 'bounded_by', None):
                r.status = 'bounded'
                r.why = unit.bounded_by
        elif any(o.status == 'refuted' for o in s.obls.values()):
            r.status = 'refuted'
        else:
            r.status = 'unproved'
    if s is None or r.status == 'unproved':
        why = r.why or 'invariants too weak for: %s' % (r.unproved,)
        try:
            b = _session(unit, source, 'bounded', unit.bound,
                         time.time() + unit.budget_s, registry)
            rb = Result(unit)
            fill(rb, b)
            if rb.refuted:
                fill(r, b)
                r.status = 'refuted'
                r.why = why
            elif b.obls and b.complete_paths and not rb.unproved and \
                    b.reachable:
                fill(r, b)
                r.status = 'bounded'
                r.why = why + ' (loops unrolled %d times, %d paths cut)' % (
                    unit.bound, b.cut_paths)
            else:
                r.status = 'unreached'
                r.why = why + ' ; bounded: %s' % (rb.unproved,)
        except Unsupported as e:
            r.status = 'unreached'
            r.why = why + ' ; bounded: %s' % e
        except Exception as e:
            r.status = 'unreached'
            r.why = why + ' ; bounded engine error: %s: %s' % (
                type(e).__name__, traceback.format_exc()[-2000:])
    r.wall_s = time.time() - t0
    return r


def fill(r, s):
    r.obligations = len(s.obls)
    r.discharged = sum(1 for o in s.obls.values()
                       if o.status == 'discharged')
    r.instances = sum(o.instances for o in s.obls.values())
    r.names = sorted(s.obls)
    r.refuted = [{'obligation': o.name, 'model': o.refuted[0][0],
                  'notes': [str(x) for x in o.refuted[0][1]]}
                 for o in s.obls.values() if o.status == 'refuted']
    r.unproved = [o.name for o in s.obls.values() if o.status == 'unproved']
    r.backends = {}
    for o in s.obls.values():
        for b, n in o.backends.items():
            r.backends[b] = r.backends.get(b, 0) + n
    r.paths = s.paths
    r.used_contracts = sorted(s.used_contracts)
    r.inlined = sorted(s.inlined)
    r.assumptions = sorted(s.assumptions)
