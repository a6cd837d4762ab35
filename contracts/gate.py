"""Contracts for the directive gate and the hooks (C14).

Each eat method is executed over all outcomes of the scanning functions (whose
contracts say only: they consume input, and return an expression where they
read one).  An expression read is a generic name (zq<N>x), of which the method
can do nothing but pass it on; what is passed to the compiler is checked for
the names that have not been given to the hooks."""
import builtins
import re
import types
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import FModel, PyRaise
from pyvc.runner import Unit

PA = 'Cheetah.Parser'
MARK = re.compile(r'zq\d+x')

# what the compiler takes as text, not as code
TEXT = {'addStrConst', 'addRawText', 'addComment', 'commitStrConst',
        'handleWSBeforeDirective', 'dedent', 'indent', 'addChunk',
        'isClassDef', 'nextMethodID'}


class Parser(object):
    def __getitem__(self, k):
        return self.unit.slice(k)


class Compiler(object):
    pass


class Macro(object):
    pass


def marks(*vs):
    out = set()

    def walk(v, d=0):
        if isinstance(v, str):
            if v.startswith('#') and '\n' not in v:
                return      # a comment in the generated code
            out.update(MARK.findall(v))
        elif isinstance(v, (list, tuple, set)) and d < 5:
            for x in v:
                walk(x, d + 1)
        elif isinstance(v, dict) and d < 5:
            for a, b in v.items():
                walk(a, d + 1)
                walk(b, d + 1)
    walk(list(vs))
    return out


class Eat(Unit):
    max_paths = 6000
    budget_s = 60
    unroll_while_true = True
    extra = ()

    # ------------------------------------------------ scanning functions
    def read(self, it, what='expr'):
        self.n += 1
        m = 'zq%dx' % self.n
        self.reads.append((self.t, self.t + 1, m))
        self.t += 1
        return m

    def slice(self, k):
        a = 0 if k.start is None else k.start
        b = self.t if k.stop is None else k.stop
        return ' '.join(m for x, y, m in self.reads if a <= x and y <= b)

    def scan(self, it, name, args, kw):
        c = it.ctx
        if name == 'pos':
            return self.t
        if name in ('setPos', 'advance', 'rev'):
            if name == 'advance':
                self.t += 1
            return None
        if name in ('getRowCol', 'getRowColLine'):
            return (1, 1)
        if name in ('findEOL', 'findBOL', 'breakPoint'):
            return self.t + 5
        if name == '_eatRestOfDirectiveTag':
            self.t += 1
            return None
        if name == 'isLineClearToStartToken' or name == 'startswith' or \
                name.startswith('match') and name != 'matchDirective':
            return bool(c.choose(2))
        if name == 'matchDirective':
            return c.choose(2) and 'def'
        if name == 'atEnd':
            self.ends += 1
            return True if self.ends > 3 else bool(c.choose(2))
        if name == 'peek':
            r = self.peeks[c.choose(len(self.peeks))]
            return r
        if name == 'getc':
            self.t += 1
            return ':'
        if name == 'getIdentifier':
            self.t += 1
            return 'ident'
        if name in ('getExpression', 'getCheetahVar', 'getDottedName',
                    'getCallArgString', 'readTo', 'readToEOL',
                    '_eatToThisEndDirective', 'getCheetahVarBody',
                    'getPyToken', 'getCheetahVarNameChunks'):
            if name == 'getCheetahVarNameChunks':
                return [(self.read(it), True, '')]
            if name == 'readToEOL' and (kw.get('gobble', True) or args):
                self.t += 1
                return '\n'
            return self.read(it)
        if name == 'getExpressionParts':
            if c.choose(2):
                return [self.read(it), 'then', self.read(it), 'else',
                        self.read(it)]
            return [self.read(it), ' ', self.read(it)]
        if name == 'getDefArgList':
            k = c.choose(3)
            return [] if k == 0 else [('a', self.read(it))] if k == 1 \
                else [('self', None), ('a', None), ('b', self.read(it))]
        if name == 'getTargetVarsList':
            return [['python'], [], ['reset']][c.choose(3)]
        if name.startswith('get'):
            self.t += 1
            return ' '
        if name == 'parse':
            return None
        if name == 'setting':
            if isinstance(args[0], str) and args[0].endswith('Token'):
                return '#'
            if args[0] in ('blockMarkerStart', 'blockMarkerEnd'):
                return ('<', '>')
            if args[0] in ('closeableDirectives',) or \
                    args[0].endswith('Hooks'):
                return []
            if args[0] not in self.setts:
                self.setts[args[0]] = bool(c.choose(2))
            return self.setts[args[0]]
        if name in ('setSetting', 'pushToOpenDirectivesStack',
                    'popFromOpenDirectivesStack', 'setBreakPoint',
                    'assertEmptyOpenDirectivesStack', 'configureParser',
                    '_initializeSettings', 'eatDirective', 'eatComment'):
            return None
        if name in ('src', 'filename'):
            return ''
        return NotImplemented

    SCAN = set('''_eatRestOfDirectiveTag pos setPos advance rev getRowCol getRowColLine findEOL
        findBOL breakPoint isLineClearToStartToken startswith matchDirective
        atEnd peek getc getIdentifier getExpression getCheetahVar
        getDottedName getCallArgString readTo readToEOL getCheetahVarBody
        _eatToThisEndDirective getExpressionParts getDefArgList
        getTargetVarsList parse setting setSetting src filename
        pushToOpenDirectivesStack popFromOpenDirectivesStack setBreakPoint
        assertEmptyOpenDirectivesStack configureParser _initializeSettings
        eatDirective eatComment
        getAssignmentOperator getCacheToken getCallArgString
        getCheetahVar getCheetahVarBody getCheetahVarNameChunks
        getCheetahVarStartToken getCommaSeparatedSymbols
        getCommentStartToken getDefArgList getDirectiveEndToken
        getDirectiveStartToken getDottedName getExpression
        getExpressionParts getIdentifier getMultiLineCommentEndToken
        getMultiLineCommentStartToken getPSPEndToken getPSPStartToken
        getPlaceholder getPyToken getRowCol getSilentPlaceholderToken
        getTargetVarsList getWhiteSpace matchAssignmentOperator
        matchCheetahVarInExpressionStartToken matchCheetahVarStart
        matchCheetahVarStartToken
        matchColonForSingleLineShortFormDirective
        matchCommentStartToken matchDirective matchDirectiveEndToken
        matchDirectiveName matchDirectiveStartToken matchEOLSlurpToken
        matchExpressionPlaceholderStart matchIdentifier
        matchMultiLineCommentEndToken matchMultiLineCommentStartToken
        matchOperator matchPSPEndToken matchPSPStartToken matchPyToken
        matchTopLevelToken matchVariablePlaceholderStart'''.split())
    peeks = [':', '(', '=', 'x', ',', '{']

    def on_getattr(self, it, o, name):
        if o is self.parser:
            if name == '_applyExpressionFilters':
                return FModel(self.filter, name)
            if name in self.scanned:
                def run(it_, a, k, name=name):
                    r = self.scan(it_, name, a, k)
                    if r is NotImplemented:
                        raise Unsupported('scanning function %s' % name)
                    return r
                return FModel(run, name)
            if name in o.__dict__:
                return NotImplemented
            f = getattr(self.cls, name, None)
            if isinstance(f, types.FunctionType):
                return types.MethodType(f, o)
            if f is not None:
                return f
            return NotImplemented
        if o is self.compiler:
            if name in o.__dict__:
                return NotImplemented
            return FModel(lambda it_, a, k, name=name: self.sink(
                it_, name, a, k), name)
        return NotImplemented

    def filter(self, it, a, k):
        self.seen |= marks(a, k)
        self.filtered += 1
        return a[0] if a else k['expr']

    def sink(self, it, name, a, k):
        if name in TEXT:
            return None
        new = marks(a, k) - self.seen
        self.sinks += 1
        it.ctx.prove('what %s() gets has passed the hooks' % name, not new)
        if name.startswith('gen') or name.startswith('set'):
            return 'gen'
        return 'value'

    def on_call(self, it, f, args, kw):
        if f is builtins.eval:
            it.ctx.prove('what is evaluated has passed the hooks',
                         not (marks(args) - self.seen))
            return {}
        if f is builtins.locals:
            return dict(it.frames[-1].locals)
        if getattr(f, '__name__', '') == 'ParseError':
            return self.resolve(PA + ':ForbiddenSyntax') if False else \
                ValueError('parse error')
        return NotImplemented

    def run(self, it):
        c = it.ctx
        self.cls = self.resolve(PA + ':_HighLevelParser')
        self.n = self.t = self.ends = self.filtered = self.sinks = 0
        self.reads, self.seen, self.setts = [], set(), {}
        self.scanned = self.SCAN - set(self.real)
        p = self.parser = Parser()
        p.unit = self
        self.compiler = Compiler()
        self.compiler._blockMetaData = {}
        p._compiler = self.compiler
        p._openDirectivesStack = []
        p._useSearchList_origs = [True]
        p._afterSingleLineDirective = bool(c.choose(2))
        p._isSingleLineDirective = False
        p._closeableDirectives = ['for', 'repeat', 'try', 'unless']
        p._outerDirectivesCount = 0
        p._macros = {}
        p._macroDetails = {}
        p._directiveNamesAndParsers = {}
        args = [p] + list(self.args(it))
        out = self.outcome(it, self.resolve(), args)
        c.prove('ends', out.kind in ('return', 'raise'))
        if out.kind == 'return':
            self.after(it, out)

    real = ()

    def args(self, it):
        return []

    def after(self, it, out):
        pass


EATERS = '''eatPSP eatShbang eatEncoding eatCompiler eatCompilerSettings
    eatAttr eatDecorator eatDef eatBlock eatClosure eatExtends eatImplements
    eatSuper eatSet eatInclude eatCache eatCall eatCallArg eatFilter
    eatTransform eatErrorCatcher eatCapture eatIf'''.split()
UNITS = []
for _n in EATERS:
    UNITS.append(type('Unit_' + _n, (Eat,), {
        'name': 'Parser.%s (hooks)' % _n,
        'target': PA + ':_HighLevelParser.' + _n}))


class SimpleExpr(Eat):
    name = 'Parser.eatSimpleExprDirective (hooks)'
    target = PA + ':_HighLevelParser.eatSimpleExprDirective'

    def args(self, it):
        return ['return', bool(it.ctx.choose(2))]

    def after(self, it, out):
        it.ctx.prove('the expression it returns has passed the hooks',
                     not (marks(out.value) - self.seen))


class SimpleIndenting(Eat):
    name = 'Parser.eatSimpleIndentingDirective (hooks)'
    target = PA + ':_HighLevelParser.eatSimpleIndentingDirective'

    def args(self, it):
        n = ['for', 'else', 'repeat', 'try', 'unless'][it.ctx.choose(5)]
        return [n, FModel(lambda it_, a, k: self.sink(
            it_, 'add' + n, a, k), 'add')]


class Placeholder(Eat):
    name = 'Parser.getPlaceholder (hooks)'
    target = PA + ':_LowLevelParser.getPlaceholder'
    real = ('getPlaceholder',)

    def args(self, it):
        return [False, False, True]

    def sink(self, it, name, a, k):
        if name == 'genCheetahVar':
            return ' '.join(sorted(marks(a, k)))
        return Eat.sink(self, it, name, a, k)

    def after(self, it, out):
        it.ctx.prove('the placeholder it returns has passed the hooks',
                     not (marks(out.value[0], out.value[4]) - self.seen)
                     if isinstance(out.value, tuple) and len(out.value) == 6
                     else not (marks(out.value) - self.seen))


class Macro(object):
    pass


class MacroCall(Eat):
    name = 'Parser.eatMacroCall (hooks)'
    target = PA + ':_HighLevelParser.eatMacroCall'

    def args(self, it):
        c = it.ctx

        def macro(src, a=None):
            return 'out'
        self.parser._macros = {'ident': macro}
        self.parser._src = 'source'
        self.macro = macro
        return []

    def on_call(self, it, f, args, kw):
        if f is self.macro:
            # the macro's source text is text: what the hooks must see is
            # what is evaluated to call it
            self.called = True
            return 'out'
        return Eat.on_call(self, it, f, args, kw)


class Gate(Eat):
    '''Nothing happens to the template before the gate has let the directive
    pass.'''
    name = 'Parser.eatDirective (gate)'
    target = PA + ':_HighLevelParser.eatDirective'
    NAMES = ['set', 'for', 'else', 'silent', 'return', 'import', 'mymacro']

    def args(self, it):
        c = it.ctx
        self.what = self.NAMES[c.choose(len(self.NAMES))]
        self.gated = False
        self.parser._directiveNamesAndParsers = {
            'set': FModel(lambda i, a, k: self.effect(i, 'eatSet', a, k),
                          'eatSet'),
            'mymacro': FModel(lambda i, a, k: self.effect(i, 'macro', a, k),
                              'macro')}
        return []

    def effect(self, it, name, a, k):
        it.ctx.prove('%s only after the gate' % name, self.gated)
        self.did = True
        return 'value'

    def sink(self, it, name, a, k):
        self.effect(it, name, a, k)
        return 'value'

    def scan(self, it, name, args, kw):
        if name == 'matchDirective':
            return self.what
        if name == 'setting' and args and args[0] in (
                'preparseDirectiveHooks', 'postparseDirectiveHooks'):
            if it.ctx.choose(2):
                return []
            return [FModel(lambda i, a, k: self.effect(i, 'hook', a, k),
                           'hook')]
        if name in ('advance', 'setPos', 'setSetting', 'parse',
                    'pushToOpenDirectivesStack', 'readToEOL'):
            self.effect(it, name, args, kw)
        return Eat.scan(self, it, name, args, kw)

    def on_getattr(self, it, o, name):
        if o is self.parser:
            if name == '_filterDisabledDirectives':
                def gate(i, a, k):
                    d = a[0] if a else k.get('directiveName')
                    i.ctx.prove('the gate judges this directive',
                                d == self.what)
                    if i.ctx.choose(2):
                        raise PyRaise(self.forbidden)
                    self.gated = True
                return FModel(gate, name)
            if name in ('eatSimpleIndentingDirective',
                        'eatSimpleExprDirective'):
                return FModel(lambda i, a, k: self.effect(i, name, a, k),
                              name)
        return Eat.on_getattr(self, it, o, name)

    forbidden = ValueError('forbidden')

    def run(self, it):
        self.did = False
        Eat.run(self, it)

    def after(self, it, out):
        it.ctx.prove('a directive is read only past the gate', self.gated)


class GatePSP(Gate):
    name = 'Parser.eatPSP (gate)'
    target = PA + ':_HighLevelParser.eatPSP'
    NAMES = ['psp']


class Filter(Eat):
    '''The gate raises exactly for the disabled names and, when only some
    names are enabled, for the others.'''
    name = 'Parser._filterDisabledDirectives'
    target = PA + ':_HighLevelParser._filterDisabledDirectives'
    real = ('_filterDisabledDirectives',)
    bounded_by = 'lists of at most two names'
    POOL = ['errorCatcher', 'errorcatcher', 'ERRORCATCHER', 'set']

    def some(self, c):
        return [self.POOL[c.choose(len(self.POOL))]
                for i in range(c.choose(3))]

    def args(self, it):
        c = it.ctx
        self.d = ['errorCatcher', 'errorcatcher'][c.choose(2)]
        self.en, self.dis = self.some(c), self.some(c)
        self.hooked = 0
        return [self.d]

    def scan(self, it, name, args, kw):
        if name == 'setting':
            if args[0] == 'enabledDirectives':
                return list(self.en)
            if args[0] == 'disabledDirectives':
                return list(self.dis)
            if args[0] == 'disabledDirectiveHooks':
                def hook(i, a, k):
                    self.hooked += 1
                return [FModel(hook, 'hook')]
        return Eat.scan(self, it, name, args, kw)

    def on_call(self, it, f, args, kw):
        if isinstance(f, type) and issubclass(f, Exception):
            return ValueError(f.__name__)
        return NotImplemented

    def run(self, it):
        self.out = None
        Eat.run(self, it)

    def outcome(self, it, f, args):
        out = Eat.outcome(self, it, f, args)
        low = [x.lower() for x in self.en]
        bad = 'errorcatcher' in [x.lower() for x in self.dis] or (
            low and 'errorcatcher' not in low)
        it.ctx.prove('exactly the disabled directives are refused',
                     (out.kind == 'raise') == bool(bad))
        if out.kind == 'raise':
            it.ctx.prove('as a forbidden directive',
                         str(out.value) == 'ForbiddenDirective')
            it.ctx.prove('the hooks are told', self.hooked == 1)
        return out


UNITS += [SimpleExpr, SimpleIndenting, MacroCall, Gate, GatePSP, Filter,
          Placeholder]
