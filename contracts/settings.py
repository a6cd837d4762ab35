"""Contracts for merging settings (C11).

A nested dictionary is an opaque value; `merged(a, b)` stands for the
dictionary a itself after b was merged into it (the contract of the recursive
call: it writes only to a and returns a), `copied(b)` for a new dictionary
with b's content.  The loop over the new settings is treated for one arbitrary
key K: the keys are visited in an arbitrary order, each once."""
import copy
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import AbsIter
from pyvc.runner import Unit
from pyvc import models as M
from pyvc.world import World

SM = 'Cheetah.SettingsManager'
OBJ = M.CODECS['obj']
merged = z3.Function('merged', ObjSort, ObjSort, ObjSort)
copied = z3.Function('copied', ObjSort, ObjSort)
key_at = z3.Function('keyAt', z3.IntSort(), ObjSort)
index = z3.Function('indexOfKey', ObjSort, z3.IntSort())
MERGE = SM + ':mergeNestedDictionaries'


class NoHost(World):
    def identical(self, it, a, b):
        # a caller's value is none of the module's own marker objects
        if isinstance(a, type) or isinstance(b, type):
            return False
        return World.identical(self, it, a, b)


def smap(name):
    return SMap(z3.Const(name + '_dom', z3.ArraySort(ObjSort, z3.BoolSort())),
                z3.Const(name + '_val', z3.ArraySort(ObjSort, ObjSort)),
                OBJ, OBJ, name)


class Merge(Unit):
    name = 'SettingsManager.mergeNestedDictionaries'
    target = MERGE
    recursive = False

    def is_dict(self, it, t):
        return it.world.p('is_dict')(t)

    def contracts(self):
        return {}

    def on_call(self, it, f, args, kw):
        if getattr(f, '__name__', '') == 'mergeNestedDictionaries' and \
                getattr(self, 'inside', False):
            if kw or len(args) != 2:
                raise Unsupported('recursive call with options')
            a, b = args
            if isinstance(a, dict) and not a and isinstance(b, Sym):
                return SObj(copied(b.e))
            if isinstance(a, Sym) and isinstance(b, Sym):
                it.ctx.prove('merges only dictionaries', z3.And(
                    self.is_dict(it, a.e), self.is_dict(it, b.e)))
                return SObj(merged(a.e, b.e))
            raise Unsupported('recursive call')
        if f in (copy.copy, copy.deepcopy) and len(args) == 1:
            if isinstance(args[0], SMap):
                m = args[0]
                return SMap(m.dom, m.val, m.kc, m.vc, m.name + '_copy')
            if isinstance(args[0], Sym):
                it.ctx.prove('copies only dictionaries',
                             self.is_dict(it, args[0].e))
                return SObj(copied(args[0].e))
        if f is dict and len(args) == 1 and isinstance(args[0], Sym):
            raise Unsupported('shallow copy of a nested dictionary')
        return NotImplemented

    def map_method(self, it, o, name, args, kw):
        if o is self.d2 and name in ('items', 'keys', 'values', 'iteritems'):
            return self.walk(it, name)
        return NotImplemented

    def walk(self, it, name):
        dom, val = self.d2.dom, self.d2.val
        c = it.ctx

        def at(k):
            kk = key_at(k)
            c.assume(z3.And(z3.Select(dom, kk), index(kk) == k))
            key, v = SObj(kk), SObj(z3.Select(val, kk))
            return key if name == 'keys' else v if name == 'values' \
                else (key, v)
        c.assume(z3.Implies(z3.Select(dom, self.K), z3.And(
            index(self.K) >= 0, index(self.K) < self.n,
            key_at(index(self.K)) == self.K)))
        c.assume(self.n >= 0)
        return AbsIter(self.n, at)

    def want(self, it):
        """the specified value at K once K was visited"""
        a = z3.Select(self.d1val, self.K)
        b = z3.Select(self.d2.val, self.K)
        return z3.If(self.is_dict(it, b), z3.If(z3.And(
            z3.Select(self.d1dom, self.K), self.is_dict(it, a)),
            merged(a, b), copied(b)), b)

    def candidates(self, it, L):
        done = z3.And(z3.Select(self.d2.dom, self.K),
                      index(self.K) < L.k)
        out = []
        ms = [v for v in L.vars.values() if isinstance(v, SMap)]
        ms += [b[0] for b in L.heap.values() if isinstance(b[0], SMap)]
        if self.mode == 0:
            ms.append(self.d1)
        for m in {id(m): m for m in ms}.values():
            nm = '%d %s' % (self.mode, m.name)
            out += [(nm + ': keys', z3.Select(m.dom, self.K) == z3.Or(
                done, z3.Select(self.d1dom, self.K))),
                (nm + ': values', z3.Implies(
                    z3.Select(m.dom, self.K),
                    z3.Select(m.val, self.K) == z3.If(
                        done, self.want(it),
                        z3.Select(self.d1val, self.K))))]
        return out

    def run(self, it):
        c = it.ctx
        self.K = z3.Const('K', ObjSort)
        self.n = z3.Int('nkeys')
        self.d1, self.d2 = smap('dict1'), smap('dict2')
        self.d1dom, self.d1val = self.d1.dom, self.d1.val
        d2 = (self.d2.dom, self.d2.val)
        mode = self.mode = c.choose(3)
        kw = [{}, {'copy': True}, {'deepcopy': True}][mode]
        self.inside = False
        if c.s.loop_mode != 'inv':
            # needed to be exact about a bounded number of keys
            for i in range(c.s.bound + 1):
                c.assume(z3.Implies(z3.And(
                    i < self.n, z3.BoolVal(True)), z3.And(
                        z3.Select(d2[0], key_at(i)),
                        index(key_at(i)) == i)))
        fn = self.resolve()
        self.inside = True
        out = self.outcome(it, fn, [self.d1, self.d2], kw)
        self.inside = False
        c.prove('returns a dictionary', out.kind == 'return' and
                isinstance(out.value, SMap))
        if out.kind != 'return' or not isinstance(out.value, SMap):
            return
        r = out.value
        inn = z3.Select(d2[0], self.K)
        c.prove('has exactly the keys of both', z3.Select(r.dom, self.K) ==
                z3.Or(inn, z3.Select(self.d1dom, self.K)))
        c.prove('a given key is overridden, nested dictionaries merged key '
                'by key, and no dictionary of the caller is taken over',
                z3.Implies(inn, z3.Select(r.val, self.K) == self.want(it)))
        c.prove('every other setting is as it was', z3.Implies(
            z3.And(z3.Not(inn), z3.Select(self.d1dom, self.K)),
            z3.Select(r.val, self.K) == z3.Select(self.d1val, self.K)))
        c.prove('the new settings are not changed', z3.And(
            self.d2.dom == d2[0], self.d2.val == d2[1]))
        if mode == 0:
            c.prove('merged in place', r is self.d1)
        else:
            c.prove('a copy was asked for', r is not self.d1 and z3.And(
                self.d1.dom == self.d1dom, self.d1.val == self.d1val))


class Update(Unit):
    name = 'SettingsManager.updateSettings'
    target = SM + ':SettingsManager.updateSettings'

    def run(self, it):
        c = it.ctx
        s = object.__new__(self.resolve(SM + ':SettingsManager'))
        old, new = smap('settings'), smap('newSettings')
        s._settings = old
        o0, n0 = (old.dom, old.val), (new.dom, new.val)
        calls = []

        def merge(it_, args, kw):
            calls.append(list(args))
            if kw:
                raise Unsupported('options of the merge')
            return args[0]
        it.contracts[MERGE] = merge
        upd = []
        self.map_method = lambda it_, o, name, args, kw: \
            upd.append((o, args[0])) if name == 'update' and \
            len(args) == 1 and not kw else NotImplemented
        mode = c.choose(3)
        out = self.outcome(it, self.resolve(), [s, new],
                           [{}, {'merge': True}, {'merge': False}][mode])
        c.prove('returns', out.kind == 'return')
        c.prove('keeps its settings dictionary', s._settings is old)
        if mode < 2:
            c.prove('merges the new settings into its own, once',
                    len(calls) == 1 and not upd and calls[0][0] is old and
                    calls[0][1] is new)
        else:
            c.prove('overrides the given keys, once',
                    len(upd) == 1 and not calls and upd[0][0] is old and
                    upd[0][1] is new)
        c.prove('writes nothing itself', z3.And(
            old.dom == o0[0], old.val == o0[1], new.dom == n0[0],
            new.val == n0[1]))


class Setting(Unit):
    name = 'SettingsManager.setting'
    target = SM + ':SettingsManager.setting'

    def world(self):
        return NoHost()

    def run(self, it):
        c = it.ctx
        s = object.__new__(self.resolve(SM + ':SettingsManager'))
        m = smap('settings')
        s._settings = m
        k = SObj('name')
        d = SObj('default')
        mode = c.choose(2)
        out = self.outcome(it, self.resolve(), [s, k] + ([d] if mode else []))
        has = z3.Select(m.dom, k.e)
        if out.kind == 'raise':
            c.prove('fails only for a missing setting without default',
                    z3.And(z3.Not(has), mode == 0))
            c.prove('by KeyError', isinstance(out.value, KeyError))
        else:
            v = out.value
            c.prove('gives the setting or the default', z3.If(
                has, M._encobj(v) == z3.Select(m.val, k.e),
                z3.And(mode == 1, M._encobj(v) == d.e)))


def _mutables(v, seen=None):
    """the lists, dictionaries and sets reachable from a settings value"""
    seen = {} if seen is None else seen
    if isinstance(v, (list, dict, set, bytearray)) and id(v) not in seen:
        seen[id(v)] = v
        if isinstance(v, dict):
            for k, x in v.items():
                _mutables(x, seen)
        else:
            for x in v:
                _mutables(x, seen)
    elif isinstance(v, tuple):
        for x in v:
            _mutables(x, seen)
    return seen


class Init(Unit):
    """a compiler starts from its own copy of the defaults; closed: the
    defaults are the ones of the module, there is no other input"""
    name = 'ModuleCompiler._initializeSettings'
    target = 'Cheetah.Compiler:ModuleCompiler._initializeSettings'

    def on_call(self, it, f, args, kw):
        if f in (copy.deepcopy, copy.copy, dict) and len(args) == 1 \
                and not kw and type(args[0]) in (dict, list):
            return f(args[0])
        return NotImplemented

    def run(self, it):
        c = it.ctx
        defaults = self.resolve('Cheetah.Compiler:DEFAULT_COMPILER_SETTINGS')
        update = self.resolve(SM + ':SettingsManager.updateSettings')
        s = object.__new__(self.resolve('Cheetah.Compiler:ModuleCompiler'))
        s._settings = {}

        def upd(it_, args, kw):
            return update(*args, **kw)
        it.contracts[SM + ':SettingsManager.updateSettings'] = upd
        before = copy.deepcopy(defaults)
        out = self.outcome(it, self.resolve(), [s])
        c.prove('returns', out.kind == 'return')
        c.prove('starts from the defaults', s._settings == before)
        c.prove('shares no list or dictionary with the defaults', not (
            set(_mutables(s._settings)) & set(_mutables(defaults))))
        c.prove('the defaults are as before', before == defaults)


UNITS = [Merge, Update, Setting, Init]
