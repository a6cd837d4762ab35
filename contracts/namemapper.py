"""Contracts for Cheetah/NameMapper.py (the Python implementation).

Spec functions (uninterpreted object world, see pyvc.world):
  found(o,s)  = (isMapping(o) and s in o) or hasattr(o,s)
  val(o,s)    = o[s] if isMapping(o) and s in o else getattr(o,s)
  auto(v)     = callable(v) and v is a function/method (see AUTO below)
  step(o,s)   = val(o,s)() if autocall and auto(val(o,s)) else val(o,s)
  F(0)=start; F(k+1)=step(F(k), chunk k)
The dotted lookup must return F(n), raise the lookup error at the first k
where found(F(k), chunk k) fails, perform exactly one no-argument call per
autocalled step, and let any exception of user code through unchanged.
"""
import collections.abc
import z3

from pyvc.values import *  # noqa
from pyvc.core import PathEnd
from pyvc.interp import PyRaise, VList, SExc, FModel
from pyvc.runner import Unit, Outcome
from pyvc import models as M
from pyvc.world import World

NM = 'Cheetah.NameMapper'
SeqObj = z3.SeqSort(ObjSort)


class NMWorld(World):
    isMap = z3.Function('isMapping', ObjSort, z3.BoolSort())
    isType = z3.Function('isType', ObjSort, z3.BoolSort())

    def isinstance(self, it, o, c):
        if c is collections.abc.Mapping:
            return SBool(self.isMap(o.e))
        if c is type:
            return SBool(self.isType(o.e))
        return World.isinstance(self, it, o, c)

    def hasattr(self, it, o, k):
        # attributes every Python object has
        if isinstance(k, str) and k in ('__class__', '__init__'):
            return True
        k = M.sterm(k)
        # hasattr() lets exceptions other than AttributeError through
        if it.ctx.decide(self.attrErr(o.e, k)):
            raise PyRaise(SExc(self.attr(o.e, k), 'attr'))
        return SBool(self.hasAttr(o.e, k))

    def key(self, k):
        return M.objOfStr(M.sterm(k))

    def exc_isinstance(self, it, exc, c):
        # 'attr': by definition anything but AttributeError; user code is
        # assumed not to raise the library's own lookup error
        if c.__name__ == 'NotFound' or exc.origin == 'attr' and \
                c is AttributeError:
            return z3.BoolVal(False)
        return World.exc_isinstance(self, it, exc, c)


W = NMWorld


def usesKey(o, s):
    return z3.And(W.isMap(o), W.hasKeyF(o, M.objOfStr(s)))


def found(o, s):
    return z3.Or(usesKey(o, s), W.hasAttr(o, s))


def val(o, s):
    return z3.If(usesKey(o, s), W.item(o, M.objOfStr(s)), W.attr(o, s))


def fails(o, s):
    """user code raises something else while the attribute is looked up"""
    return z3.And(z3.Not(usesKey(o, s)), W.attrErr(o, s))


def hasA(o, name):
    return W.hasAttr(o, zstr(name))


def isInstOrClass(o):
    """a class, or an object that is not a function, method or builtin"""
    return z3.Or(W.isType(o), hasA(o, 'mro'),
                 z3.Not(z3.Or(hasA(o, '__func__'), hasA(o, '__code__'),
                              hasA(o, '__self__'))))


def auto(v):
    return z3.And(W.callableF(v), z3.Not(isInstOrClass(v)))


def probe_ok(o):
    """the fixed attribute probes on o do not themselves raise (assumption
    on user objects, listed)"""
    return z3.And(*[z3.Not(W.attrErr(o, zstr(a))) for a in
                    ('mro', '__func__', '__code__', '__self__')])


F = z3.Function('F', z3.IntSort(), ObjSort)     # object after k components
G = z3.Function('G', z3.IntSort(), z3.IntSort())  # calls made so far


class NMUnit(Unit):
    budget_s = 150

    def world(self):
        return NMWorld()

    def mod(self):
        import Cheetah.NameMapper as m
        return m


class IsInst(NMUnit):
    name = 'NameMapper._isInstanceOrClass'
    target = NM + ':_isInstanceOrClass'

    def run(self, it):
        o = SObj('o')
        it.ctx.assume(probe_ok(o.e))
        # language fact: classes have mro
        out = self.outcome(it, self.resolve(), [o])
        it.ctx.prove('returns normally', out.kind == 'return')
        it.ctx.prove('true exactly for classes and plain instances',
                     b(out.value) == isInstOrClass(o.e))


def b(v):
    if isinstance(v, Sym):
        return v.e
    return z3.BoolVal(bool(v))


def c_isInst(it, args, kw):
    return SBool(isInstOrClass(args[0].e))


class HasKey(NMUnit):
    name = 'NameMapper.hasKey'
    target = NM + ':hasKey'

    def run(self, it):
        o, k = SObj('o'), SStr('key')
        it.ctx.assume(z3.Not(fails(o.e, k.e)))
        out = self.outcome(it, self.resolve(), [o, k])
        it.ctx.prove('returns normally', out.kind == 'return')
        it.ctx.prove('true iff mapping key or attribute',
                     b(out.value) == found(o.e, k.e))


def c_hasKey(it, args, kw):
    o, k = args[0], args[1]
    e = fails(o.e, M.sterm(k))
    if it.ctx.decide(e):
        raise PyRaise(SExc(W.attr(o.e, M.sterm(k)), 'attr'))
    return SBool(found(o.e, M.sterm(k)))


def is_notfound(it, out):
    import Cheetah.NameMapper as m
    return out.kind == 'raise' and isinstance(out.value, m.NotFound)


class RaiseNF(NMUnit):
    name = 'NameMapper._raiseNotFoundException'
    target = NM + ':_raiseNotFoundException'

    def run(self, it):
        out = self.outcome(it, self.resolve(), [SStr('key'), SObj('ns')])
        it.ctx.prove('always raises the lookup error', is_notfound(it, out))
        if is_notfound(it, out):
            m = out.value.args[0]
            it.ctx.prove('message names the missing component',
                         z3.Contains(M.sterm(m), z3.Concat(
                             zstr("'"), z3.String('key'), zstr("'"))))


def c_raiseNF(it, args, kw):
    import Cheetah.NameMapper as m
    raise PyRaise(m.NotFound(SStr(z3.Concat(
        zstr("cannot find '"), M.sterm(args[0]), zstr("'")))))


class ValueForKey(NMUnit):
    name = 'NameMapper.valueForKey'
    target = NM + ':valueForKey'

    def run(self, it):
        o, k = SObj('o'), SStr('key')
        it.ctx.assume(z3.Not(fails(o.e, k.e)))
        out = self.outcome(it, self.resolve(), [o, k])
        if it.ctx.decide(found(o.e, k.e)):
            it.ctx.prove('found: returns', out.kind == 'return')
            if out.kind == 'return':
                it.ctx.prove('found: mapping key first, then attribute',
                             out.value.e == val(o.e, k.e)
                             if isinstance(out.value, Sym) else False)
        else:
            it.ctx.prove('missing: raises the lookup error',
                         is_notfound(it, out))


class DottedSpec(object):
    """spec of the dotted lookup; as callee contract and as postcondition"""
    def __init__(self, it, start, name, execute):
        self.it, self.start, self.ex = it, start, execute
        self.chunks = M.splitDot(M.sterm(name), zstr('.'))
        self.n = z3.Length(self.chunks)
        self.F = z3.Function('F', z3.IntSort(), ObjSort)
        self.G = z3.Function('G', z3.IntSort(), z3.IntSort())

    def chunk(self, k):
        return self.chunks[k]

    def v(self, k):
        return val(self.F(k), self.chunk(k))

    def calls(self, k):
        return z3.And(self.ex, auto(self.v(k)))

    def ok(self, k):
        """component k resolves without any error"""
        return z3.And(found(self.F(k), self.chunk(k)),
                      z3.Not(fails(self.F(k), self.chunk(k))),
                      z3.Not(z3.And(self.calls(k), W.callErr(self.v(k)))))

    def unfold(self, k):
        return [self.F(0) == self.start, self.G(0) == 0,
                z3.Implies(self.calls(k),
                           z3.And(self.F(k + 1) == W.callRes(self.v(k)),
                                  self.G(k + 1) == self.G(k) + 1)),
                z3.Implies(z3.Not(self.calls(k)),
                           z3.And(self.F(k + 1) == self.v(k),
                                  self.G(k + 1) == self.G(k))),
                probe_ok(self.v(k))]


okUpTo = z3.Function('okUpTo', z3.IntSort(), z3.BoolSort())


class ValueForName_(NMUnit):
    name = 'NameMapper._valueForName'
    target = NM + ':_valueForName'

    def contracts(self):
        return {NM + ':_isInstanceOrClass': c_isInst,
                NM + ':_raiseNotFoundException': c_raiseNF}

    def candidates(self, it, L):
        S = self.spec
        out = []
        for n, v in L.vars.items():
            if isinstance(v, Sym) and v.kind == 'obj':
                out.append(('%s==F(k)' % n, v.e == S.F(L.k)))
        out.append(('calls==G(k)', L.ghost['calls'] == S.G(L.k)))
        # every earlier component resolved without error
        out.append(('okUpTo', okUpTo(L.k)))
        return out

    def loop_axioms(self, it, L):
        S = self.spec
        ks = [L.k] if z3.is_int_value(L.k) else [L.k]
        out = []
        for k in (L.k, z3.simplify(L.k - 1)):
            out += S.unfold(k)
            out += [okUpTo(k + 1) == z3.And(okUpTo(k), S.ok(k))]
        out += [okUpTo(0)]
        return out

    def run(self, it):
        c = it.ctx
        o, name, ex = SObj('obj'), SStr('name'), SBool('executeCallables')
        self.spec = S = DottedSpec(it, o.e, name, ex.e)
        c.ghost['calls'] = z3.IntVal(0)
        if c.s.loop_mode == 'bounded':
            for k in range(c.s.bound + 1):
                for a in S.unfold(z3.IntVal(k)) + [
                        okUpTo(k + 1) == z3.And(okUpTo(k), S.ok(k)),
                        okUpTo(0)]:
                    c.assume(a)
        out = self.outcome(it, self.resolve(), [o, name, ex])
        k = z3.Int('kk')
        if out.kind == 'return':
            v = out.value
            c.prove('success only if every component resolves',
                    okUpTo(S.n))
            c.prove('result is the object reached by the whole path',
                    v.e == S.F(S.n) if isinstance(v, Sym) else False)
            c.prove('one no-argument call per autocalled component',
                    c.ghost['calls'] == S.G(S.n))
        else:
            # there is a first failing component and the error is its error
            ks = [d for d in [z3.Int('k')]]
            kf = z3.Int('k') if c.s.loop_mode == 'inv' else None
            cand = [kf] if kf is not None else [z3.IntVal(i) for i in
                                                range(c.s.bound)]

            def at(k):
                base = z3.And(k >= 0, k < S.n, okUpTo(k))
                if is_notfound(it, out):
                    return z3.And(base, z3.Not(found(S.F(k), S.chunk(k))),
                                  c.ghost['calls'] == S.G(k))
                if isinstance(out.value, SExc):
                    t = out.value.term
                    return z3.And(base, z3.Or(
                        z3.And(fails(S.F(k), S.chunk(k)),
                               t == W.attr(S.F(k), S.chunk(k)),
                               c.ghost['calls'] == S.G(k)),
                        z3.And(S.calls(k), W.callErr(S.v(k)),
                               t == W.callRes(S.v(k)),
                               c.ghost['calls'] == S.G(k) + 1)))
                return z3.BoolVal(False)
            c.prove('failure is that of the first unresolvable component',
                    z3.Or(*[at(k) for k in cand]))


# spec of _valueForName as seen by callers
VFN_ok = z3.Function('dottedOk', ObjSort, StrSort, z3.BoolSort(),
                     z3.BoolSort())
VFN_nf = z3.Function('dottedMissing', ObjSort, StrSort, z3.BoolSort(),
                     z3.BoolSort())
VFN_val = z3.Function('dottedValue', ObjSort, StrSort, z3.BoolSort(),
                      ObjSort)


def c_valueForName_(it, args, kw):
    import Cheetah.NameMapper as m
    o = args[0]
    name = args[1] if len(args) > 1 else kw['name']
    ex = args[2] if len(args) > 2 else kw.get('executeCallables', False)
    ex = b(ex)
    nm = M.sterm(name)
    it.ctx.event('lookup', o.e, nm, ex)
    if it.ctx.decide(VFN_ok(o.e, nm, ex)):
        return SObj(VFN_val(o.e, nm, ex))
    if it.ctx.decide(VFN_nf(o.e, nm, ex)):
        raise PyRaise(m.NotFound(SStr(it.ctx.fresh('nfmsg'))))
    raise PyRaise(SExc(VFN_val(o.e, nm, ex)))


def check_dotted(c, it, out, o, nm, ex, tag=''):
    """outcome == that of the dotted lookup in o"""
    if c.decide(VFN_ok(o, nm, ex)):
        c.prove(tag + 'returns the value of the dotted lookup',
                out.value.e == VFN_val(o, nm, ex)
                if out.kind == 'return' and isinstance(out.value, Sym)
                else False)
    elif c.decide(VFN_nf(o, nm, ex)):
        c.prove(tag + 'missing component: raises the lookup error',
                is_notfound(it, out))
    else:
        c.prove(tag + 'user exception passes through unchanged',
                out.value.term == VFN_val(o, nm, ex)
                if out.kind == 'raise' and isinstance(out.value, SExc)
                else False)


class WrapNF(NMUnit):
    name = 'NameMapper._wrapNotFoundException'
    target = NM + ':_wrapNotFoundException'

    def run(self, it):
        import Cheetah.NameMapper as m
        e = m.NotFound(SStr('msg'))
        fr_exc = e
        # the function re-raises the exception being handled
        from pyvc.interp import Frame
        f = Frame({}, name='handler')
        f.exc.append(e)
        it.frames.append(f)
        out = self.outcome(it, self.resolve(), [e, SStr('full'), SObj('ns')])
        it.ctx.prove('re-raises the very same exception',
                     out.kind == 'raise' and out.value is e)
        it.ctx.prove('original message kept as prefix',
                     z3.PrefixOf(z3.String('msg'), M.sterm(e.args[0])))


def c_wrapNF(it, args, kw):
    e = args[0]
    msg = e.args[0]
    e.args = (SStr(z3.Concat(M.sterm(msg), z3.String(
        it.ctx.fresh('wrapped')))),)
    raise PyRaise(e)


class ValueForName(NMUnit):
    name = 'NameMapper.valueForName'
    target = NM + ':valueForName'

    def contracts(self):
        return {NM + ':_valueForName': c_valueForName_,
                NM + ':_wrapNotFoundException': c_wrapNF}

    def run(self, it):
        o, name, ex = SObj('obj'), SStr('name'), SBool('executeCallables')
        if it.ctx.choose(2) == 0:
            out = self.outcome(it, self.resolve(), [o, name, ex])
            e = ex.e
        else:
            out = self.outcome(it, self.resolve(), [o, name])
            e = z3.BoolVal(False)
        check_dotted(it.ctx, it, out, o.e, name.e, e)


class SearchUnit(NMUnit):
    """common part of the search-list functions"""
    def contracts(self):
        return {NM + ':_valueForName': c_valueForName_,
                NM + ':_wrapNotFoundException': c_wrapNF,
                NM + ':_raiseNotFoundException': c_raiseNF,
                NM + ':hasKey': c_hasKey}

    def head(self, nm):
        i = z3.IndexOf(nm, zstr('.'), 0)
        return z3.If(i < 0, nm, z3.SubString(nm, 0, i))

    def candidates(self, it, L):
        out = []
        if L.iter is not None:
            out.append(('no earlier namespace has it',
                        noneUpTo(L.iter.src.e, L.k)
                        if L.iter.src is not None else z3.BoolVal(True)))
        return out

    def loop_axioms(self, it, L):
        if L.iter is None or L.iter.src is None:
            return []
        s = L.iter.src.e
        self.visited = s
        out = [noneUpTo(s, 0)]
        for k in (L.k, z3.simplify(L.k - 1)):
            out.append(noneUpTo(s, k + 1) == z3.And(
                noneUpTo(s, k), z3.Not(found(s[k], self.key)),
                z3.Not(fails(s[k], self.key))))
        return out

    def judge(self, it, out, seq, nm, ex):
        """seq: the namespaces in documented order"""
        c = it.ctx
        n = z3.Length(seq)
        if c.s.loop_mode == 'inv' and not c.exact:
            c.prove('namespaces are visited in the documented order',
                    self.visited == seq)
        ev = [e for e in c.trace if e[0] == 'lookup']
        if True:
            for k in range(c.s.bound + 4):
                c.assume(noneUpTo(seq, k + 1) == z3.And(
                    noneUpTo(seq, k), z3.Not(found(seq[k], self.key)),
                    z3.Not(fails(seq[k], self.key))))
            c.assume(noneUpTo(seq, 0))
        if ev:
            c.prove('looks the name up in one namespace only', len(ev) == 1)
            o, n2, e2 = ev[0][1:]
            ks = ([z3.Int('k'), z3.Int('k!1')]
                  if c.s.loop_mode == 'inv' else []) + [
                z3.IntVal(i) for i in range(c.s.bound + 4)]
            c.prove('the namespace used is the first that has the first '
                    'component',
                    z3.Or(*[z3.And(k >= 0, k < n, seq[k] == o,
                                   noneUpTo(seq, k),
                                   found(o, self.key)) for k in ks]))
            c.prove('the full dotted name and the autocall flag are passed '
                    'on', z3.And(n2 == nm, e2 == ex))
            check_dotted(c, it, out, o, n2, e2)
        elif is_notfound(it, out):
            c.prove('lookup error only if no namespace has the first '
                    'component', noneUpTo(seq, n))
        elif out.kind == 'raise' and isinstance(out.value, SExc):
            ks = ([z3.Int('k'), z3.Int('k!1')]
                  if c.s.loop_mode == 'inv' else []) + [
                z3.IntVal(i) for i in range(c.s.bound + 4)]
            c.prove('a user exception is that of the first failing probe',
                    z3.Or(*[z3.And(k >= 0, k < n, noneUpTo(seq, k),
                                   fails(seq[k], self.key),
                                   out.value.term == W.attr(seq[k],
                                                            self.key))
                            for k in ks]))
        else:
            c.prove('no other outcome: %s' % type(out.value).__name__,
                    False)


noneUpTo = z3.Function('noneUpTo', SeqObj, z3.IntSort(), z3.BoolSort())


class ValueFromSearchList(SearchUnit):
    name = 'NameMapper.valueFromSearchList'
    target = NM + ':valueFromSearchList'

    def run(self, it):
        sl = z3.Const('searchList', SeqObj)
        nm, ex = SStr('name'), SBool('executeCallables')
        self.key = self.head(nm.e)
        out = self.outcome(it, self.resolve(), [
            VList([], SList(sl, M.CODECS['obj'])), nm, ex])
        self.judge(it, out, sl, nm.e, ex.e)


class FrameStub(object):
    pass


class ValueFromFrameOrSearchList(SearchUnit):
    name = 'NameMapper.valueFromFrameOrSearchList'
    target = NM + ':valueFromFrameOrSearchList'

    def on_global(self, it, fr, name):
        if name == '__builtins__':
            return SObj('builtins')
        return NotImplemented

    def frame(self):
        f = FrameStub()
        f.f_locals, f.f_globals = SObj('frame_locals'), SObj('frame_globals')
        return f

    def docorder(self, sl):
        return z3.Concat(z3.Unit(z3.Const('frame_locals', ObjSort)), sl,
                         z3.Unit(z3.Const('frame_globals', ObjSort)),
                         z3.Unit(z3.Const('builtins', ObjSort)))

    def run(self, it):
        sl = z3.Const('searchList', SeqObj)
        nm, ex = SStr('name'), SBool('executeCallables')
        self.key = self.head(nm.e)
        out = self.outcome(it, self.resolve(), [
            VList([], SList(sl, M.CODECS['obj'])), nm, ex, self.frame()])
        self.judge(it, out, self.docorder(sl), nm.e, ex.e)


class ValueFromFrame(ValueFromFrameOrSearchList):
    name = 'NameMapper.valueFromFrame'
    target = NM + ':valueFromFrame'

    def run(self, it):
        nm, ex = SStr('name'), SBool('executeCallables')
        self.key = self.head(nm.e)
        out = self.outcome(it, self.resolve(), [nm, ex, self.frame()])
        self.judge(it, out, self.docorder(z3.Empty(SeqObj)), nm.e, ex.e)


UNITS = [IsInst, HasKey, RaiseNF, WrapNF, ValueForKey, ValueForName_,
         ValueForName, ValueFromSearchList, ValueFromFrameOrSearchList,
         ValueFromFrame]
