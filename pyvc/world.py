"""Uninterpreted objects: what user objects may do is left to the solver."""
import z3

from .values import *  # noqa
from .core import Unsupported
from .interp import PyRaise, SExc
from . import models as M

P = z3.BoolSort()


class World(object):
    """Object protocols as total uninterpreted functions (assumed pure and
    deterministic: asking twice gives the same answer)."""
    truthy = z3.Function('truthy', ObjSort, P)
    hasAttr = z3.Function('hasAttr', ObjSort, StrSort, P)
    attr = z3.Function('attr', ObjSort, StrSort, ObjSort)
    attrErr = z3.Function('attrOtherError', ObjSort, StrSort, P)
    hasKeyF = z3.Function('hasKey', ObjSort, ObjSort, P)
    item = z3.Function('item', ObjSort, ObjSort, ObjSort)
    callableF = z3.Function('callable', ObjSort, P)
    callRes = z3.Function('callResult', ObjSort, ObjSort)
    callErr = z3.Function('callRaises', ObjSort, P)
    strRaw = z3.Function('strOf', ObjSort, StrSort)

    def __init__(self):
        self.pred = {}

    def p(self, name):
        if name not in self.pred:
            self.pred[name] = z3.Function(name, ObjSort, P)
        return self.pred[name]

    def truth(self, it, o):
        it.ctx.assume(z3.Not(self.truthy(M.NONE)))
        return it.ctx.decide(self.truthy(o.e))

    def isinstance(self, it, o, c):
        return SBool(self.p('is_' + getattr(c, '__name__', str(c)))(o.e))

    def exc_isinstance(self, it, exc, c):
        return self.p('exc_is_' + c.__name__)(exc.term)

    def hasattr(self, it, o, k):
        return SBool(self.hasAttr(o.e, M.sterm(k)))

    def getattr(self, it, o, k):
        k = M.sterm(k)
        if it.ctx.decide(self.attrErr(o.e, k)):
            raise PyRaise(SExc(self.attr(o.e, k), 'attr'))
        if not it.ctx.decide(self.hasAttr(o.e, k)):
            raise PyRaise(AttributeError('attribute'))
        return SObj(self.attr(o.e, k))

    def setattr(self, it, o, k, v):
        raise Unsupported('setattr on unknown object')

    def key(self, k):
        return M._encobj(k)

    def contains(self, it, o, k):
        return SBool(self.hasKeyF(o.e, self.key(k)))

    def getitem(self, it, o, k):
        k = self.key(k)
        if not it.ctx.decide(self.hasKeyF(o.e, k)):
            raise PyRaise(KeyError('key'))
        return SObj(self.item(o.e, k))

    def setitem(self, it, o, k, v):
        raise Unsupported('setitem on unknown object')

    def delitem(self, it, o, k):
        raise Unsupported('delitem on unknown object')

    def callable(self, it, o):
        return SBool(self.callableF(o.e))

    def call(self, it, o, args, kw):
        it.ctx.event('call', o.e, tuple(args), dict(kw))
        if args or kw:
            raise Unsupported('call of unknown object with arguments')
        if 'calls' in it.ctx.ghost:
            it.ctx.ghost['calls'] = it.ctx.ghost['calls'] + 1
        if it.ctx.decide(self.callErr(o.e)):
            raise PyRaise(SExc(self.callRes(o.e), 'call'))
        return SObj(self.callRes(o.e))

    def str_of(self, it, o):
        return SStr(self.strRaw(o.e))

    def eq(self, it, a, b):
        return M._encobj(a) == M._encobj(b)

    def identical(self, it, a, b):
        if a is None or b is None or (isinstance(a, Sym) and
                                      isinstance(b, Sym)):
            return M._encobj(a) == M._encobj(b)
        # an unknown object against a host object: same only if the host
        # object has been given a constant
        return M._encobj(a) == M._encobj(b)

    def order(self, it, op, a, b):
        raise Unsupported('ordering of unknown objects')

    def binop(self, it, op, a, b):
        raise Unsupported('operator on unknown objects')

    def len(self, it, o):
        raise Unsupported('len of unknown object')

    def iter(self, it, o):
        raise Unsupported('iteration over unknown object')

    def type_of(self, it, o):
        raise Unsupported('type() of unknown object')

    def id_of(self, it, o):
        raise Unsupported('id() of unknown object')
