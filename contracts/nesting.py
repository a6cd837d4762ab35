"""Contracts for the parser's stack of open directives (C06): the stack is an
arbitrary sequence of names, `outer` of them opened outside of the current
single-line directive."""
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import VList
from pyvc.runner import Unit
from pyvc.loops import list_term
from pyvc import models as M

PA = 'Cheetah.Parser'
SEQ = z3.SeqSort(StrSort)


class NUnit(Unit):
    def setup(self, it):
        c = it.ctx
        cls = self.resolve(PA + ':_HighLevelParser')
        p = object.__new__(cls)
        self.st0 = z3.Const('stack', SEQ)
        self.outer = z3.Int('outer')
        c.assume(z3.And(self.outer >= 0,
                        self.outer <= z3.Length(self.st0)))
        p._openDirectivesStack = VList([], SList(self.st0, M.CODECS['str']))
        p._outerDirectivesCount = SInt(self.outer)
        p._closeableDirectives = ['if', 'for', 'cache', 'def', 'errorCatcher']
        p._src, p._pos, p._breakPoint = 'abc', 0, 3
        p._filename = None
        self.PE = self.resolve(PA + ':ParseError')
        return p

    def stack(self, p):
        return list_term(p._openDirectivesStack, M.CODECS['str'])

    def syntax_error(self, out):
        return out.kind == 'raise' and isinstance(out.value, self.PE)


class Push(NUnit):
    name = 'Parser.pushToOpenDirectivesStack'
    target = PA + ':_HighLevelParser.pushToOpenDirectivesStack'

    def run(self, it):
        c = it.ctx
        p = self.setup(it)
        name = p._closeableDirectives[c.choose(5)]
        out = self.outcome(it, self.resolve(), [p, name])
        c.prove('opens', out.kind == 'return')
        c.prove('the directive lies on top, everything below as before',
                self.stack(p) == z3.Concat(self.st0, z3.Unit(zstr(name))))


class Pop(NUnit):
    name = 'Parser.popFromOpenDirectivesStack'
    target = PA + ':_HighLevelParser.popFromOpenDirectivesStack'

    def run(self, it):
        c = it.ctx
        p = self.setup(it)
        name = SStr('name')
        n = z3.Length(self.st0)
        out = self.outcome(it, self.resolve(), [p, name])
        c.prove('closes or reports a syntax error',
                out.kind == 'return' or self.syntax_error(out))
        good = z3.And(n > self.outer, self.st0[n - 1] == name.e)
        if out.kind == 'return':
            c.prove('closes only the innermost open directive, by its name',
                    good)
            c.prove('everything below stays open', self.stack(p) ==
                    z3.Extract(self.st0, z3.IntVal(0), n - 1))
        else:
            c.prove('an end that matches is never refused', z3.Not(good))
            c.prove('nothing closed', self.stack(p) == self.st0)


class AssertEmpty(NUnit):
    name = 'Parser.assertEmptyOpenDirectivesStack'
    target = PA + ':_HighLevelParser.assertEmptyOpenDirectivesStack'

    def run(self, it):
        c = it.ctx
        p = self.setup(it)
        n = z3.Length(self.st0)
        out = self.outcome(it, self.resolve(), [p])
        c.prove('passes or reports a syntax error',
                out.kind == 'return' or self.syntax_error(out))
        if out.kind == 'return':
            c.prove('nothing was left open', n == self.outer)
        else:
            c.prove('something was left open', n > self.outer)


ALLOWED = {'else': ('if', 'unless', 'for', 'while', 'repeat', 'try'),
           'elif': ('if', 'unless'), 'except': ('try',), 'finally': ('try',)}


class Continued(NUnit):
    name = 'Parser._checkContinuedDirective'
    target = PA + ':_HighLevelParser._checkContinuedDirective'

    def run(self, it):
        c = it.ctx
        p = self.setup(it)
        n = z3.Length(self.st0)
        names = sorted(ALLOWED) + ['if', 'for', 'cache']
        name = names[c.choose(len(names))]
        out = self.outcome(it, self.resolve(), [p, name])
        c.prove('passes or reports a syntax error',
                out.kind == 'return' or self.syntax_error(out))
        if name in ALLOWED:
            ok = z3.And(n > self.outer, z3.Or(*[
                self.st0[n - 1] == zstr(x) for x in ALLOWED[name]]))
        else:
            ok = z3.BoolVal(True)
        c.prove('passes exactly inside the directive it continues',
                ok if out.kind == 'return' else z3.Not(ok))
        c.prove('opens and closes nothing', self.stack(p) == self.st0)


UNITS = [Push, Pop, AssertEmpty, Continued]
