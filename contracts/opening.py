"""Contracts for what opens and closes a block (C06).

Ghost state: `regions`, the nesting of the generated code, as the compiler is
told about it (startMethodDef, addIf, startCacheRegion, .. open; closeDef,
dedent, endCacheRegion, .. close).  The invariant of the parser is that its
stack of open directives describes that nesting: a directive that is continued
on later lines pushes its name once and opens one region of the kind which
#end <name> closes; a single-line directive pushes nothing and closes what it
opened, after its body was parsed inside of it.

The eat methods are executed as in contracts/gate.py: over all outcomes of the
scanning functions."""
import types
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import FModel, PyRaise
from pyvc.runner import Unit
from contracts.gate import Eat, PA, TEXT
from contracts.nesting import ALLOWED

CO = 'Cheetah.Compiler'
OPENS = {'startMethodDef': 'method', 'addClosure': 'indent',
         'addIf': 'indent', 'startCacheRegion': 'cache',
         'startCallRegion': 'call', 'startCaptureRegion': 'capture',
         'setFilter': 'filter', 'indent': 'indent',
         'addFor': 'indent', 'addWhile': 'indent', 'addTry': 'indent',
         'addRepeat': 'indent', 'addUnless': 'indent'}
CLOSES = {'closeDef': 'method', 'closeBlock': 'method', 'dedent': 'indent',
          'endCacheRegion': 'cache', 'endCallRegion': 'call',
          'endCaptureRegion': 'capture', 'closeFilterBlock': 'filter'}
CONTINUES = ('addElse', 'addElif', 'addExcept', 'addFinally')
OTHER = (TEXT - {'indent', 'dedent'}) | {
    'genCacheInfoFromArgList', 'addTernaryExpr', 'turnErrorCatcherOff',
    'setErrorCatcher', 'setting', 'setSetting'}
CLOSEABLE = ['def', 'block', 'closure', 'capture', 'cache', 'call', 'filter',
             'while', 'for', 'if', 'try', 'repeat', 'unless']


class Block(Eat):
    max_paths = 12000
    budget_s = 60
    STACKS = [[], ['if'], ['def'], ['def', 'for'], ['def', 'def'], ['block']]

    def kind(self, name, outer):
        """the region #end <name> closes, inside of the blocks `outer`"""
        if name in ('block',):
            return 'method'
        if name == 'def':
            nested = self.setts.get('allowNestedDefScopes') \
                and 'def' in outer
            return 'indent' if nested else 'method'
        if name in ('cache', 'call', 'capture', 'filter'):
            return name
        return 'indent'

    def filter(self, it, a, k):
        return a[0] if a else k['expr']

    def sink(self, it, name, a, k):
        c = it.ctx
        if name in OPENS:
            self.regions.append(OPENS[name])
        elif name in CLOSES:
            k_ = CLOSES[name]
            if not self.regions and self.given:
                self.regions.append(self.given.pop())
            c.prove('%s() closes the innermost region' % name,
                    bool(self.regions) and self.regions[-1] == k_)
            if self.regions:
                self.regions.pop()
        elif name in CONTINUES:
            if 'dedent' in k or len(a) > 1:
                ded = k['dedent'] if 'dedent' in k else a[1]
            else:
                ded = True
            if ded:
                p = self.parser
                st = p._openDirectivesStack
                c.prove('%s() in the place of the block it continues' % name,
                        len(st) > p._outerDirectivesCount and
                        st[-1] in ALLOWED[name[3:].lower()])
            else:
                c.prove('%s() directly behind a single-line directive' % name,
                        self.after_single)
                self.regions.append('indent')
        elif name not in OTHER:
            raise Unsupported('compiler.%s' % name)
        if name.startswith('gen'):
            return 'gen'
        return None

    def scan(self, it, name, args, kw):
        p = self.parser
        if name == 'pushToOpenDirectivesStack':
            p._openDirectivesStack.append(args[0] if args
                                          else kw['directiveName'])
            return None
        if name == 'popFromOpenDirectivesStack':
            self.pop(it, args[0] if args else kw['directiveName'])
            return None
        if name == 'parse':
            it.ctx.prove('the body is parsed inside of its region',
                         len(self.regions) == 1)
            if not ('breakPoint' in kw or args):
                raise Unsupported('parse() without an end')
            # the body leaves the stack as it was (contract of parse)
            return None
        if name == 'getDefArgList':
            return [('self', None), ('a', self.read(it))]
        if name in ('setPos', 'rev', 'setBreakPoint'):
            self.moves += 1
        if name.startswith('match') or name in (
                'peek', 'startswith', 'isLineClearToStartToken', 'atEnd'):
            # the same question at the same place has the same answer
            key = (name, repr(args), repr(kw), self.t, self.moves)
            if key not in self.memo:
                self.memo[key] = Eat.scan(self, it, name, args, kw)
            return self.memo[key]
        return Eat.scan(self, it, name, args, kw)

    peeks = [':', '(', 'x']

    def pop(self, it, name):
        it.ctx.prove('only #end takes a name off the stack', False)

    def outcome(self, it, fn, args, kw=None):
        out = Eat.outcome(self, it, fn, args, kw)
        if out.kind == 'raise' and not (
                type(out.value) is ValueError
                or isinstance(out.value, AssertionError)):
            # not the parser's own refusal: the set-up lacks something
            raise Unsupported('%r' % (out.value,))
        return out

    def run(self, it):
        self.regions, self.given = [], []
        self.memo, self.moves = {}, 0
        Eat.run(self, it)

    def args(self, it):
        c = it.ctx
        p = self.parser
        p._closeableDirectives = list(CLOSEABLE)
        self.before = self.STACKS[c.choose(len(self.STACKS))]
        p._openDirectivesStack = list(self.before)
        p._afterSingleLineDirective = self.after_single = False
        self.compiler._callRegionsStack = ['x']
        return self.more(it)

    def more(self, it):
        return []

    def after(self, it, out):
        c = it.ctx
        now = self.parser._openDirectivesStack
        n = len(self.before)
        c.prove('the stack below is left alone', now[:n] == self.before)
        new = now[n:]
        c.prove('at most this directive is put on the stack',
                new in ([], [self.directive]))
        if new:
            c.prove('a block left open is open in the generated code',
                    self.regions == [self.kind(self.directive, self.before)])
        else:
            c.prove('what is not left open is closed in the generated code',
                    self.regions == [])


UNITS = []
for _n, _d in (('eatDef', 'def'), ('eatBlock', 'block'),
               ('eatClosure', 'closure'), ('eatCache', 'cache'),
               ('eatCall', 'call'), ('eatFilter', 'filter'),
               ('eatCapture', 'capture'), ('eatIf', 'if')):
    UNITS.append(type('Block_' + _n, (Block,), {
        'name': 'Parser.%s (blocks)' % _n, 'directive': _d,
        'target': PA + ':_HighLevelParser.' + _n}))


class Indenting(Block):
    name = 'Parser.eatSimpleIndentingDirective (blocks)'
    target = PA + ':_HighLevelParser.eatSimpleIndentingDirective'
    NAMES = ['while', 'for', 'try', 'repeat', 'unless', 'else', 'elif',
             'except', 'finally']

    STACKS = [[]] + [[d] for d in CLOSEABLE]

    def more(self, it):
        self.parser._outerDirectivesCount = \
            len(self.before) if it.ctx.choose(2) else 0
        self.directive = n = self.NAMES[it.ctx.choose(len(self.NAMES))]
        self.parser._afterSingleLineDirective = self.after_single = bool(
            it.ctx.choose(2))
        cb = 'add' + n.capitalize()
        return [n, FModel(lambda i, a, k: self.sink(i, cb, a, k), cb)]


class End(Block):
    '''#end <name> takes the name off the stack and closes its region'''
    name = 'Parser.eatEndDirective (blocks)'
    target = PA + ':_HighLevelParser.eatEndDirective'

    def more(self, it):
        c = it.ctx
        M = self.resolve(PA + ':_HighLevelParser')
        import sys
        table = sys.modules[M.__module__].endDirectiveNamesAndHandlers
        names = sorted(table)
        self.directive = names[c.choose(len(names))]
        p = self.parser
        p._endDirectiveNamesAndHandlers = dict(
            (k, types.MethodType(getattr(M, v), p) if isinstance(v, str)
             else v) for k, v in table.items())
        p._openDirectivesStack = self.before + [self.directive]
        self.nested = self.setts.setdefault('allowNestedDefScopes',
                                            bool(c.choose(2)))
        if self.directive in CLOSEABLE:
            self.given = [self.kind(self.directive, self.before)]
        return []

    def pop(self, it, name):
        it.ctx.prove('#end takes off the name it was written with',
                     name == self.directive)
        self.parser._openDirectivesStack.pop()

    def scan(self, it, name, args, kw):
        if name == 'startswith' and args:
            return self.directive.startswith(args[0])
        return Block.scan(self, it, name, args, kw)

    def on_getattr(self, it, o, name):
        if o is self.parser and name == 'find':
            def find(i, a, k):
                pos = a[1] if len(a) > 1 else self.t
                return pos if self.directive.startswith(a[0]) else pos + 9
            return FModel(find, name)
        return Block.on_getattr(self, it, o, name)

    def after(self, it, out):
        c = it.ctx
        if self.directive in CLOSEABLE:
            c.prove('one name is taken off', self.parser._openDirectivesStack
                    == self.before)
            c.prove('its region is closed, and nothing else',
                    self.regions == [] and self.given == [])
        else:
            c.prove('nothing is taken off', self.parser._openDirectivesStack
                    == self.before + [self.directive])
            c.prove('nothing is closed', self.regions == [])


UNITS += [Indenting, End]


class Level(Unit):
    '''The indentation of the generated code follows the regions.'''
    STUBS = {'addChunk', 'addWriteChunk', 'addFilteredChunk', 'addStrConst',
             'appendToPrevChunk', 'commitStrConst', 'addMethComment'}
    budget_s = 30

    def on_getattr(self, it, o, name):
        if o is self.m and name not in o.__dict__:
            if name in self.STUBS:
                return FModel(lambda i, a, k: None, name)
            if name == 'setting':
                return FModel(lambda i, a, k: bool(i.ctx.choose(2)), name)
            if name in ('nextCacheID', 'nextCallRegionID', 'nextFilterRegionID',
                        'nextCaptureRegionID'):
                return FModel(lambda i, a, k: '_7', name)
        return NotImplemented

    def setup(self, it):
        cls = self.resolve(CO + ':MethodCompiler')
        m = self.m = object.__new__(cls)
        self.L = z3.Int('level')
        it.ctx.assume(self.L >= 1)
        m._indentLev = SInt(self.L)
        m._cacheRegionsStack, m._callRegionsStack = [], []
        m._captureRegionsStack, m._filterRegionsStack = [], []
        m._pendingStrConstChunks = []
        m._repeatCount = 2
        return m

    def level(self):
        v = self.m._indentLev
        return v.e if hasattr(v, 'e') else z3.IntVal(v)

    def call(self, it, name, args, kw=None):
        out = self.outcome(it, self.resolve(CO + ':MethodCompiler.' + name),
                           [self.m] + args, kw or {})
        it.ctx.prove('%s() ends' % name, out.kind == 'return')
        return out.kind == 'return'


class Indents(Level):
    name = 'Compiler.addFor, addIf, ... (indentation)'
    target = CO + ':MethodCompiler.addIndentingDirective'
    FNS = ['addWhile', 'addFor', 'addRepeat', 'addIf', 'addUnless', 'addTry',
           'addClosure', 'addElse', 'addElif', 'addExcept', 'addFinally']

    def run(self, it):
        c = it.ctx
        self.setup(it)
        fn = self.FNS[c.choose(len(self.FNS))]
        if fn == 'addClosure':
            args, kw = ['f', [('a', None), ('b', '1')], '# c'], {}
        else:
            kw = {'lineCol': (1, 2)} if c.choose(2) else {}
            args = ['else if x' if fn == 'addElse' else 'x']
        add = 1
        if fn in CONTINUES:
            add = 0
            if c.choose(2):
                kw['dedent'], add = False, 1
        if self.call(it, fn, args, kw):
            c.prove('%s() indents what follows it, and only that' % fn,
                    self.level() == self.L + add)


class Regions(Level):
    name = 'Compiler.startCacheRegion, endCacheRegion, ... (indentation)'
    target = CO + ':MethodCompiler.startCacheRegion'

    def run(self, it):
        c = it.ctx
        self.setup(it)
        k = c.choose(3)
        if k == 0:
            info = {}
            for n, v in (('interval', 30), ('test', 'x'), ('id', 'i'),
                         ('varyBy', 'y')):
                if c.choose(2):
                    info[n] = v
            fns = [('startCacheRegion', [info, (1, 2)]),
                   ('endCacheRegion', [])]
        elif k == 1:
            fns = [('startCallRegion', ['f', '', (1, 2)]),
                   ('endCallRegion', [])]
            if c.choose(2):
                fns.insert(1, ('setCallArg', ['a', (1, 2)]))
        else:
            fns = [('startCaptureRegion', ['v', (1, 2)]),
                   ('endCaptureRegion', [])]
        for fn, a in fns:
            if not self.call(it, fn, a):
                return
            c.prove('nothing before the region is closed by %s()' % fn,
                    self.level() >= self.L)
        c.prove('%s() restores the indentation' % fns[-1][0],
                self.level() == self.L)


UNITS += [Indents, Regions]


class Body(Unit):
    '''parse() ends with the stack it began with, whatever is eaten.

    Every eat method keeps the names opened outside of the current
    single-line directive (contracts above: only `pop` takes names off, never
    those) and leaves break point and outer count as they were (this
    contract, for the nested parse()).  The stack is any sequence of names,
    one letter each.'''
    bound, budget_s = 1, 40
    name = 'Parser.parse (blocks)'
    target = PA + ':_HighLevelParser.parse'

    def on_getattr(self, it, o, name):
        if o is not self.p or name in o.__dict__:
            return NotImplemented
        if name == 'atEnd':
            # (after a step only the bounded fallback asks again: the
            # invariant is checked at the end of the step)
            return FModel(lambda i, a, k: True if self.eaten else
                          bool(i.ctx.choose(2)), name)
        if name.startswith('match'):
            return FModel(lambda i, a, k: bool(i.ctx.choose(2)), name)
        if name.startswith('eat'):
            return FModel(self.eat, name)
        if name == 'breakPoint':
            return FModel(lambda i, a, k: o._breakPoint, name)
        if name == 'setBreakPoint':
            return FModel(lambda i, a, k: i.setattr(o, '_breakPoint', a[0]),
                          name)
        if name == 'assertEmptyOpenDirectivesStack':
            return FModel(self.empty, name)
        return NotImplemented

    def eat(self, it, a, k):
        c, p = it.ctx, self.p
        self.eaten += 1
        s = p._openDirectivesStack.e
        out = p._outerDirectivesCount.e
        new = z3.String(c.fresh('stack'))
        c.assume(z3.And(z3.Length(new) >= out, z3.SubString(new, 0, out)
                        == z3.SubString(s, 0, out)))
        it.setattr(p, '_openDirectivesStack', SStr(new))
        it.setattr(p, '_isSingleLineDirective', bool(c.choose(2)))
        return None

    def empty(self, it, a, k):
        p = self.p
        if it.ctx.decide(z3.Length(p._openDirectivesStack.e)
                         > p._outerDirectivesCount.e):
            raise PyRaise(ValueError('missing #end'))
        return None

    def candidates(self, it, L):
        p = self.p
        s, out = p._openDirectivesStack.e, p._outerDirectivesCount.e
        return [('the outer names are there', z3.And(
            z3.Length(s) >= out, z3.SubString(s, 0, out)
            == z3.SubString(self.s0, 0, out)))]

    def run(self, it):
        c = it.ctx
        p = self.p = object.__new__(self.resolve(PA + ':_HighLevelParser'))
        self.s0 = z3.String('stack0')
        self.eaten = 0
        o0, b0 = z3.Int('outer0'), z3.Int('bp0')
        c.assume(z3.And(o0 >= 0, o0 <= z3.Length(self.s0), b0 >= 0))
        p._openDirectivesStack = SStr(self.s0)
        p._outerDirectivesCount = SInt(o0)
        p._breakPoint = SInt(b0)
        p._isSingleLineDirective = SBool(z3.Bool('single0'))
        p._afterSingleLineDirective = SBool(z3.Bool('after0'))
        kw = {}
        how = c.choose(3)
        if how == 0:
            bp = z3.Int('bp')
            c.assume(bp > 0)
            kw = {'breakPoint': SInt(bp)}
        elif how == 1:
            kw = {'assertEmptyStack': False}
        out = self.outcome(it, self.resolve(), [p], kw)
        if out.kind == 'raise':
            c.prove('it fails only for a missing #end',
                    type(out.value) is ValueError)
            return
        c.prove('the outer count is as before',
                p._outerDirectivesCount.e == o0)
        c.prove('the break point is as before', p._breakPoint.e == b0)
        s = p._openDirectivesStack.e
        if how == 0:
            c.prove('a single-line body leaves the stack as it was',
                    s == self.s0)
        elif how == 2:
            c.prove('nothing is left open', s == z3.SubString(
                self.s0, 0, o0))


UNITS.append(Body)
