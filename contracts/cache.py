"""Contracts for CacheStore.MemoryCacheStore, CacheRegion and the code
generated for cached regions.

The store's content is an arbitrary map (SMap); q is an arbitrary other key.
The clock is a fresh value at every reading, never going backwards.
"""
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import PyRaise
from pyvc.runner import Unit, Outcome
from pyvc import models as M
from contracts.staged import StagedUnit, generate

CS = 'Cheetah.CacheStore'
ENTRY = M.tuple_codec(('obj', 'real'))
SENTRY = M.tuple_codec(('str', 'real'))


def arbitrary(kc, vc, name='data'):
    return SMap(z3.Const(name + '_dom', z3.ArraySort(kc.sort, z3.BoolSort())),
                z3.Const(name + '_val', z3.ArraySort(kc.sort, vc.sort)),
                kc, vc, name)


class StoreUnit(StagedUnit):
    op = None
    bounded_ok = False

    def state(self, it):
        st = object.__new__(self.resolve(CS + ':MemoryCacheStore'))
        m = arbitrary(M.CODECS['obj'], ENTRY)
        st._data = m
        self.dom0, self.val0 = m.dom, m.val
        self.k, self.q = SObj('key'), z3.Const('other_key', ObjSort)
        it.ctx.assume(self.q != self.k.e)
        return st

    def has(self):
        return z3.Select(self.dom0, self.k.e)

    def frame(self, c, st, changed_key=True):
        m = st._data
        c.prove('no other key is affected', z3.And(
            z3.Select(m.dom, self.q) == z3.Select(self.dom0, self.q),
            z3.Implies(z3.Select(self.dom0, self.q),
                       z3.Select(m.val, self.q) ==
                       z3.Select(self.val0, self.q))))
        if not changed_key:
            c.prove('nothing is changed', z3.And(
                z3.Select(m.dom, self.k.e) == self.has(),
                z3.Implies(self.has(), z3.Select(m.val, self.k.e) ==
                           z3.Select(self.val0, self.k.e))))

    def stored(self, c, st, v, t):
        m = st._data
        c.prove('the value is stored with its expiry time', z3.And(
            z3.Select(m.dom, self.k.e),
            z3.Select(m.val, self.k.e) == ENTRY.enc((v, t))))

    def is_error(self, out):
        return out.kind == 'raise' and isinstance(
            out.value, self.resolve(CS + ':Error'))


class Put(StoreUnit):
    def run(self, it):
        c = it.ctx
        st = self.state(it)
        v, t = SObj('value'), SReal('expiry')
        args = [st, self.k, v]
        if c.choose(2):
            args.append(t)
        else:
            t = 0
        out = self.outcome(it, self.resolve(), args)
        need = {'set': z3.BoolVal(True), 'add': z3.Not(self.has()),
                'replace': self.has()}[self.op]
        if out.kind == 'return':
            c.prove('stores only when it may', need)
            self.stored(c, st, v, t)
            self.frame(c, st)
        else:
            c.prove('refuses with the store error', self.is_error(out))
            c.prove('refuses only when it must', z3.Not(need))
            self.frame(c, st, False)


class Set(Put):
    name, target, op = 'CacheStore.set', CS + ':MemoryCacheStore.set', 'set'


class Add(Put):
    name, target, op = 'CacheStore.add', CS + ':MemoryCacheStore.add', 'add'


class Replace(Put):
    name, target, op = 'CacheStore.replace', \
        CS + ':MemoryCacheStore.replace', 'replace'


class Delete(StoreUnit):
    name, target = 'CacheStore.delete', CS + ':MemoryCacheStore.delete'

    def run(self, it):
        c = it.ctx
        st = self.state(it)
        out = self.outcome(it, self.resolve(), [st, self.k])
        if out.kind == 'return':
            c.prove('only a present key is deleted', self.has())
            c.prove('the key is gone', z3.Not(
                z3.Select(st._data.dom, self.k.e)))
            self.frame(c, st)
        else:
            c.prove('a missing key is a KeyError',
                    isinstance(out.value, KeyError))
            c.prove('only for a missing key', z3.Not(self.has()))
            self.frame(c, st, False)


class Get(StoreUnit):
    name, target = 'CacheStore.get', CS + ':MemoryCacheStore.get'

    def run(self, it):
        c = it.ctx
        st = self.state(it)
        out = self.outcome(it, self.resolve(), [st, self.k])
        v, t = ENTRY.dec(z3.Select(self.val0, self.k.e))
        last = c.ghost.get('clock')
        exp = z3.And(t.e != 0, last > t.e) if last is not None else \
            z3.BoolVal(False)
        if out.kind == 'return':
            c.prove('only a present key is returned', self.has())
            if last is None:
                c.prove('without reading the clock only if it never expires',
                        t.e == 0)
            c.prove('an expired value is not returned', z3.Not(exp))
            c.prove('the value stored last',
                    isinstance(out.value, Sym) and out.value.e == v.e)
            self.frame(c, st, False)
        else:
            c.prove('missing is a KeyError', isinstance(out.value, KeyError))
            c.prove('missing only if absent or expired',
                    z3.Or(z3.Not(self.has()), exp))
            self.frame(c, st)
            m = st._data
            c.prove('the key is absent or as it was', z3.Or(
                z3.Not(z3.Select(m.dom, self.k.e)),
                z3.Select(m.val, self.k.e) ==
                z3.Select(self.val0, self.k.e)))


class Clear(StoreUnit):
    name, target = 'CacheStore.clear', CS + ':MemoryCacheStore.clear'

    def run(self, it):
        c = it.ctx
        st = self.state(it)
        out = self.outcome(it, self.resolve(), [st])
        c.prove('returns', out.kind == 'return')
        d = st._data
        if isinstance(d, dict):
            c.prove('every key is gone', not d)
        else:
            c.prove('every key is gone', z3.Not(z3.Select(d.dom, self.q)))


STORE = [Set, Add, Replace, Delete, Get, Clear]

# ------------------------------------------------- generated cache regions


class Region(StagedUnit):
    """rendering a template with one cached region in an arbitrary state"""
    budget_s = 150
    source = None
    interval = None
    test = False
    pre, post = 'A', 'B'
    body = (None, None)          # literal text around the value

    def lookup(self, it, name):
        c = it.ctx
        if name == 'x':
            c.event('eval', 'x')
            n = len([e for e in c.trace if e[0] == 'eval'])
            return SStr('x%d' % n)
        if name == 't':
            return SBool('test%d' % len(
                [e for e in c.trace if e[0] == 'test'])) if self.test else \
                False
        if name == 'v':
            return getattr(self, 'vary', 'v1')
        raise Unsupported('lookup of %s' % name)

    def evals(self, it):
        return len([e for e in it.ctx.trace if e[0] == 'eval'])

    def bodytext(self, n):
        a, b = self.body
        parts = [zstr(a or ''), z3.String('x%d' % n), zstr(b or '')]
        return z3.Concat(*parts)

    def whole(self, t):
        return z3.Concat(zstr(self.pre), t, zstr(self.post))

    def fresh(self, it):
        if not hasattr(self, 'cls'):
            self.cls = generate(self.scratch, self.source)
        return self.cls()

    def items(self, inst):
        return [i for r in inst._CHEETAH__cacheRegions.values()
                for i in r._cacheItems.values()]

    def run(self, it):
        c = it.ctx
        inst = self.fresh(it)
        # first rendering: nothing stored yet
        out = self.outcome(it, type(inst).respond, [inst])
        c.prove('a fresh region is evaluated once', out.kind == 'return' and
                self.evals(it) == 1)
        c.prove('its output is written', M.sterm(out.value) ==
                self.whole(self.bodytext(1)))
        its = self.items(inst)
        if len(its) != 1:
            raise Unsupported('region without exactly one item')
        item = its[0]
        store = inst._getCacheStore()
        keys = list(store._data)
        c.prove('exactly one entry is stored', len(keys) == 1)
        key = keys[0]
        c.prove('the stored output is the rendered output',
                M.sterm(store._data[key][0]) == self.bodytext(1))
        self.second(it, inst, item, store, key)

    def havoc(self, it, item, store, key):
        """any state a region can be in later"""
        c = it.ctx
        m = arbitrary(M.CODECS['str'], SENTRY)
        store._data = m
        self.dom0, self.val0 = m.dom, m.val
        self.kz = zstr(key)
        self.expiry = z3.Real('expiry')
        c.assume(self.expiry >= 0)
        item._expiryTime = SReal(self.expiry)
        self.rendered = bool(c.choose(2))
        if self.rendered:
            t = z3.Real('refreshed')
            c.assume(t > 0)
            item._refreshTime = SReal(t)
        else:
            item._refreshTime = None
        self.sval, self.sexp = SENTRY.dec(z3.Select(self.val0, self.kz))
        c.assume(self.sexp.e >= 0)

    def second(self, it, inst, item, store, key):
        c = it.ctx
        self.havoc(it, item, store, key)
        n0 = self.evals(it)
        c.ghost.pop('clock', None)
        c.ghost.pop('clock0', None)
        out = self.outcome(it, type(inst).respond, [inst])
        c.prove('rendering succeeds', out.kind == 'return')
        n = self.evals(it) - n0
        c.prove('the region is evaluated at most once', n <= 1)
        t0 = c.ghost.get('clock0', z3.Real('t_none'))
        t1 = c.ghost.get('clock', z3.Real('t_none'))
        test = z3.Bool('test0') if self.test else z3.BoolVal(False)

        def gone(t):
            return z3.Or(z3.BoolVal(not self.rendered),
                         z3.And(self.expiry != 0, t > self.expiry),
                         z3.Not(z3.Select(self.dom0, self.kz)),
                         z3.And(self.sexp.e != 0, t > self.sexp.e), test)
        q = z3.String('other_key')
        c.assume(q != self.kz)
        m = store._data
        c.prove('no other stored output is affected', z3.And(
            z3.Select(m.dom, q) == z3.Select(self.dom0, q),
            z3.Select(m.val, q) == z3.Select(self.val0, q)))
        if n == 0:
            c.prove('the stored output is reused only while it is valid',
                    z3.Not(gone(t0)))
            c.prove('the stored output is written unchanged',
                    M.sterm(out.value) == self.whole(self.sval.e))
            c.prove('the stored output stays', z3.And(
                z3.Select(m.dom, self.kz),
                z3.Select(m.val, self.kz) ==
                z3.Select(self.val0, self.kz)))
        else:
            c.prove('re-rendered only if missing, expired or forced',
                    gone(t1))
            b = self.bodytext(n0 + 1)
            c.prove('the new output is written', M.sterm(out.value) ==
                    self.whole(b))
            v, e = SENTRY.dec(z3.Select(m.val, self.kz))
            c.prove('the new output is stored', z3.And(
                z3.Select(m.dom, self.kz), v.e == b))
            c.prove('the item knows it has data',
                    item._refreshTime is not None)
            if self.interval:
                c.prove('the next expiry is the interval from now', z3.And(
                    e.e == M.rterm(item._expiryTime),
                    e.e >= t0 + self.interval, e.e <= t1 + self.interval))
            else:
                c.prove('it does not expire by itself sooner than before',
                        z3.And(M.rterm(item._expiryTime) == self.expiry,
                               e.e == self.expiry))


class Static(Region):
    name = 'generated #cache region'
    target = 'Cheetah.Compiler:MethodCompiler.startCacheRegion'
    source = 'A#cache#[$x]#end cache#B'
    body = ('[', ']')


class Timer(Region):
    name = 'generated #cache timer region'
    target = 'Cheetah.Compiler:MethodCompiler.startCacheRegion'
    source = "A#cache timer='30s'#[$x]#end cache#B"
    interval = 30
    body = ('[', ']')


class Test(Region):
    name = 'generated #cache test region'
    target = 'Cheetah.Compiler:MethodCompiler.startCacheRegion'
    source = "A#cache id='r', test=$t#[$x]#end cache#B"
    test = True
    body = ('[', ']')


class Vary(Region):
    name = 'generated #cache varyBy region'
    target = 'Cheetah.Compiler:MethodCompiler.startCacheRegion'
    source = "A#cache varyBy=$v#[$x]#end cache#B"
    body = ('[', ']')


class VaryOther(Region):
    """another value of the vary-by expression starts from nothing and
    leaves the first one's output alone"""
    name = 'generated #cache varyBy region, other value'
    target = 'Cheetah.CacheRegion:CacheRegion.getCacheItem'
    source = "A#cache varyBy=$v, timer='2m'#[$x]#end cache#B"
    body = ('[', ']')
    VALUES = ['v2', 1, None, '', 'v1 ', 'V1', ('v1',)]

    def second(self, it, inst, item, store, key):
        c = it.ctx
        self.havoc(it, item, store, key)
        self.vary = self.VALUES[c.choose(len(self.VALUES))]
        n0 = self.evals(it)
        try:
            out = self.outcome(it, type(inst).respond, [inst])
        finally:
            del self.vary
        c.prove('another value is evaluated', out.kind == 'return' and
                self.evals(it) == n0 + 1)
        m = store._data
        c.prove('the first value keeps its output', z3.And(
            z3.Select(m.dom, self.kz) == z3.Select(self.dom0, self.kz),
            z3.Select(m.val, self.kz) == z3.Select(self.val0, self.kz)))
        c.prove('the first value keeps its expiry',
                M.rterm(item._expiryTime) == self.expiry)


class PhStatic(Region):
    name = 'generated cached placeholder'
    target = 'Cheetah.Compiler:MethodCompiler.addPlaceholder'
    source = 'A$*x\nB'
    post = '\nB'


class PhTimer(Region):
    name = 'generated timed placeholder'
    target = 'Cheetah.Compiler:MethodCompiler.addPlaceholder'
    source = 'A$*0.5h*{x}B'
    interval = 1800


class Refresh(Region):
    """after refreshCache the region is evaluated again, and only it"""
    name = 'Template.refreshCache'
    target = 'Cheetah.Template:Template.refreshCache'
    source = "A#cache id='r1'#[$x]#end cache#" \
             "#cache id='r2', timer='1d'#<$x>#end cache#B"
    how = [((), {}), (('r1',), {}), (('r2',), {}),
           (('r1', 'r1'), {}), (('r2', 'nosuchitem'), {}),
           (('nosuch',), {}), ((), {'cacheRegionId': 'r2'})]

    def run(self, it):
        c = it.ctx
        inst = self.fresh(it)
        args, kw = self.how[c.choose(len(self.how))]
        rendered = bool(c.choose(2))
        if rendered:
            self.outcome(it, type(inst).respond, [inst])
        n0 = self.evals(it)
        out = self.outcome(it, type(inst).refreshCache,
                           [inst] + list(args), kw)
        c.prove('refreshing is harmless', out.kind == 'return')
        c.prove('refreshing evaluates nothing', self.evals(it) == n0)
        c.ghost.pop('clock', None)
        t = z3.Real('start')
        out = self.outcome(it, type(inst).respond, [inst])
        c.prove('rendering succeeds', out.kind == 'return')
        reg = kw.get('cacheRegionId') or (args[0] if args else None)
        hit1 = reg in (None, 'r1')
        hit2 = reg == 'r2' and len(args) < 2 or reg is None
        n = self.evals(it) - n0
        if not rendered:
            c.prove('everything is evaluated', n == 2)
            return
        lo = int(hit1) + int(hit2)
        # r2 may also have expired meanwhile
        c.prove('a refreshed region is evaluated again',
                n >= lo)
        c.prove('an untouched region is not evaluated',
                n <= lo + (0 if hit2 else 1))
        m = M.sterm(out.value)
        if not hit1 and n == int(hit2):
            c.prove('its stored output is written', z3.PrefixOf(z3.Concat(
                zstr('A['), z3.String('x1'), zstr(']')), m))


class GetCacheItem(Unit):
    name = 'CacheRegion.getCacheItem'
    target = 'Cheetah.CacheRegion:CacheRegion.getCacheItem'

    def run(self, it):
        c = it.ctx
        R = self.resolve('Cheetah.CacheRegion:CacheRegion')
        r = it.call(R, ['region', 'prefix'], {})
        vals = ['a', 'b', 1, '1', None, 'None', u'\u0416', '', 'a ', 2.5]
        x = vals[c.choose(len(vals))]
        y = vals[c.choose(len(vals))]
        a = self.outcome(it, self.resolve(), [r, x])
        b = self.outcome(it, self.resolve(), [r, y])
        a2 = self.outcome(it, self.resolve(), [r, x])
        c.prove('an item is returned', a.kind == b.kind == 'return')
        c.prove('the same value gives the same item', a2.value is a.value)
        c.prove('values with different text give different items',
                (a.value is b.value) == (str(x) == str(y)))


REGION = [Static, Timer, Test, Vary, VaryOther, PhStatic, PhTimer, Refresh,
          GetCacheItem]
UNITS = STORE + REGION
STORE_NAMES = [u.name for u in STORE]
REGION_NAMES = [u.name for u in REGION]
