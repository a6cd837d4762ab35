"""Contracts for the way of literal text from the source to the generated
code (C04): which text is taken, how it is collected, and the string literal
it is written as."""
import ast
import itertools
import re
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import VList, FModel
from pyvc.loops import list_term
from pyvc.runner import Unit
from pyvc import models as M

CO = 'Cheetah.Compiler'
PA = 'Cheetah.Parser'
SEQ = z3.SeqSort(StrSort)
STR = M.CODECS['str']
ind = z3.String('ind')


class LUnit(Unit):
    def setup(self, it):
        m = object.__new__(self.resolve(CO + ':MethodCompiler'))
        self.pend0 = z3.Const('pending', SEQ)
        self.body0 = z3.Const('body', SEQ)
        m._pendingStrConstChunks = VList([], SList(self.pend0, STR))
        m._methodBodyChunks = VList([], SList(self.body0, STR))
        m.indentation = FModel(lambda it_, a, k: SStr(ind), 'indentation')
        return m

    def pend(self, m):
        return list_term(m._pendingStrConstChunks, STR)

    def body(self, m):
        return list_term(m._methodBodyChunks, STR)


_lemma = {}
ALPHA = ['\\', 'n', '\n', "'", '"', '0', 'x']
WIDE = ALPHA + ['1', '2', '\r', '\t', '\x00', '\xe9', '\u2028', '\ud800', 'N',
                'u', '{', '}']


def literal_lemma(pat, repl):
    """for every text s with repr q+B+q:  q*3 + pat.sub(repl, B) + q*3  is
    one string token whose value is s.  Texts over the quotient alphabet up
    to the cut-off (see DESIGN: the substitution looks at one run of
    backslashes and at most the longest literal of the pattern after it)."""
    key = (pat.pattern, pat.flags, repl if isinstance(repl, str) else None)
    if key not in _lemma:
        _lemma[key] = _literal_lemma(pat, repl)
    return _lemma[key]


def _literal_lemma(pat, repl):
    texts = itertools.chain(
        (''.join(t) for n in range(0, 4)
         for t in itertools.product(WIDE, repeat=n)),
        (''.join(t) for n in range(4, 7)
         for t in itertools.product(ALPHA[:5] if n == 6 else ALPHA,
                                    repeat=n)))
    for s in texts:
        r = repr(s)
        q = r[0] * 3
        code = q + pat.sub(repl, r[1:-1]) + q
        try:
            ok = ast.literal_eval(code) == s
        except Exception:
            ok = False
        if not ok:
            return s
    return None


class Commit(LUnit):
    name = 'MethodCompiler.commitStrConst'
    target = CO + ':MethodCompiler.commitStrConst'

    def on_method(self, it, o, name, args, kw):
        if isinstance(o, re.Pattern):
            if name == 'sub' and len(args) == 2 and not kw and \
                    isinstance(args[0], str) and isinstance(args[1], Sym) \
                    and it.ctx.valid(args[1].e == self.B)[0] == 'proved':
                self.subst = (o, args[0])
                return SStr(self.B2)
            if any(isinstance(a, Sym) for a in args):
                raise Unsupported('regular expression %s' % name)
        return NotImplemented

    def run(self, it):
        c = it.ctx
        m = self.setup(it)
        self.subst = None
        T = M.joinF(zstr(''), self.pend0)
        q = ["'", '"'][c.choose(2)]
        self.B, self.B2 = z3.String('B'), z3.String('B2')
        c.assume(M.reprOf(T) == z3.Concat(zstr(q), self.B, zstr(q)))
        c.assume(z3.Implies(z3.Length(self.pend0) == 0, T == zstr('')))
        out = self.outcome(it, self.resolve(), [m])
        c.prove('returns', out.kind == 'return')
        if out.kind != 'return':
            return
        c.prove('nothing is pending afterwards',
                z3.Or(z3.Length(self.pend(m)) == 0, T == zstr('')))
        b = self.body(m)
        if c.valid(T == zstr(''))[0] == 'proved':
            c.prove('no text, no code', b == self.body0)
            return
        if not c.decide(T != zstr('')):
            c.prove('no text, no code', b == self.body0)
            return

        def code(lit):
            return z3.Concat(self.body0, z3.Unit(z3.Concat(
                zstr('\n'), ind, zstr('write('), lit, zstr(')'))))
        plain = code(z3.Concat(zstr(q), self.B, zstr(q)))
        triple = code(z3.Concat(zstr(q * 3), self.B2, zstr(q * 3)))
        if self.subst is None:
            if c.valid(b == plain)[0] != 'proved':
                raise Unsupported('another literal scheme')
            c.prove('the text is written once, as its literal, after the '
                    'code so far', b == plain)
            return
        if c.valid(b == triple)[0] != 'proved':
            raise Unsupported('another literal scheme')
        c.prove('the text is written once, as its literal, after the code '
                'so far', b == triple)
        bad = literal_lemma(*self.subst)
        if bad is not None:
            c.note('text %r' % bad)
        c.prove('the literal has the text as its value', bad is None)


class Append(LUnit):
    name = 'MethodCompiler.addStrConst'
    target = CO + ':MethodCompiler.addStrConst'

    def run(self, it):
        c = it.ctx
        m = self.setup(it)
        s = SStr('s')
        out = self.outcome(it, self.resolve(), [m, s])
        c.prove('returns', out.kind == 'return')
        c.prove('the text follows the pending text',
                self.pend(m) == z3.Concat(self.pend0, z3.Unit(s.e)))
        c.prove('no code yet', self.body(m) == self.body0)


lit = z3.Function('codeOfText', SEQ, SEQ)


class Chunk(LUnit):
    """against the contract of commitStrConst"""
    name = 'MethodCompiler.addChunk'
    target = CO + ':MethodCompiler.addChunk'

    def contracts(self):
        def commit(it, args, kw):
            m = args[0]
            self.committed += 1
            b = z3.Concat(self.body(m), lit(self.pend(m)))
            m._methodBodyChunks = VList([], SList(b, STR))
            m._pendingStrConstChunks = VList([])
        return {CO + ':MethodCompiler.commitStrConst': commit}

    def run(self, it):
        c = it.ctx
        self.committed = 0
        m = self.setup(it)
        c.assume(z3.Length(lit(z3.Empty(SEQ))) == 0)
        s = SStr('chunk')
        out = self.outcome(it, self.resolve(), [m, s])
        c.prove('returns', out.kind == 'return')
        c.prove('pending text comes first, then the code on its own line',
                self.body(m) == z3.Concat(
                    self.body0, lit(self.pend0),
                    z3.Unit(z3.Concat(zstr('\n'), ind, s.e))))
        c.prove('nothing is pending', z3.Length(self.pend(m)) == 0)


class WS(LUnit):
    name = 'MethodCompiler.handleWSBeforeDirective'
    target = CO + ':MethodCompiler.handleWSBeforeDirective'

    def run(self, it):
        c = it.ctx
        m = self.setup(it)
        s = z3.String('lastText')
        strip = M.stripF
        c.assume(strip(zstr('')) == zstr(''))
        pre = self.pend0
        some = c.choose(2)
        if some:
            m._pendingStrConstChunks = VList([SStr(s)], SList(pre, STR))
        else:
            m._pendingStrConstChunks = VList([])
        out = self.outcome(it, self.resolve(), [m])
        c.prove('returns', out.kind == 'return')
        c.prove('no code', self.body(m) == self.body0)
        if not some:
            c.prove('nothing to truncate', z3.Length(self.pend(m)) == 0)
            return
        i, j = z3.LastIndexOf(s, zstr('\n')), z3.LastIndexOf(s, zstr('\r'))
        bol = z3.If(i > j, i, j) + 1
        head = z3.SubString(s, 0, bol)
        tail = z3.SubString(s, bol, z3.Length(s) - bol)
        c.prove('only white space after the last line end is taken away',
                self.pend(m) == z3.If(strip(tail) == zstr(''),
                                      z3.Concat(pre, z3.Unit(head)),
                                      z3.Concat(pre, z3.Unit(s))))


class Unescape(Unit):
    token = None

    def str_replace(self, it, o, old, new):
        return SStr(repl(M.sterm(o), M.sterm(old), M.sterm(new)))

    def run(self, it):
        c = it.ctx
        p = object.__new__(self.resolve(PA + ':_LowLevelParser'))
        tok = SStr('token')

        def setting(it_, a, k):
            c.prove('reads the start token', a[0] == self.token)
            return tok
        p.setting = FModel(setting, 'setting')
        s = SStr('s')
        out = self.outcome(it, self.resolve(), [p, s])
        c.prove('every backslash before the start token is removed, and '
                'nothing else', out.kind == 'return' and
                M.kind_of(out.value) == 'str' and
                M.sterm(out.value) == repl(
                    s.e, z3.Concat(zstr('\\'), tok.e), tok.e))


repl = z3.Function('replaceAll', StrSort, StrSort, StrSort, StrSort)


class UnescapeVars(Unescape):
    name = 'Parser._unescapeCheetahVars'
    target = PA + ':_LowLevelParser._unescapeCheetahVars'
    token = 'cheetahVarStartToken'


class UnescapeDirectives(Unescape):
    name = 'Parser._unescapeDirectives'
    target = PA + ':_LowLevelParser._unescapeDirectives'
    token = 'directiveStartToken'


Mt = z3.Function('tokenAt', z3.IntSort(), z3.BoolSort())
First = z3.Function('firstTokenFrom', z3.IntSort(), z3.IntSort())
uV = z3.Function('unescapeVars', StrSort, StrSort)
uD = z3.Function('unescapeDirectives', StrSort, StrSort)


class Plain(Unit):
    name = 'Parser.eatPlainText'
    target = PA + ':_HighLevelParser.eatPlainText'

    def contracts(self):
        def match(it, args, kw):
            p = args[0]
            self.at(it, M.iterm(p._pos))
            if it.ctx.decide(Mt(M.iterm(p._pos))):
                return self.token
            return None
        return {
            PA + ':_LowLevelParser.matchTopLevelToken': match,
            PA + ':_LowLevelParser._unescapeCheetahVars':
                lambda it, a, k: SStr(uV(M.sterm(a[1]))),
            PA + ':_LowLevelParser._unescapeDirectives':
                lambda it, a, k: SStr(uD(M.sterm(a[1])))}

    def at(self, it, p):
        it.ctx.assume(z3.And(
            z3.Implies(z3.Or(p >= self.bp, Mt(p)), First(p) == p),
            z3.Implies(z3.And(p < self.bp, z3.Not(Mt(p))),
                       First(p) == First(p + 1))))

    def candidates(self, it, L):
        out = []
        for (a, b) in L.heap.items():
            v = b[0] if isinstance(b, tuple) else b
            t = v.e if isinstance(v, Sym) and v.kind == 'int' else None
            if t is not None:
                out += [('%r: no token before' % (a,),
                         First(t) == First(self.p0)),
                        ('%r: in the text' % (a,),
                         z3.And(t >= self.p0, t <= self.bp))]
        return out

    def loop_axioms(self, it, L):
        for (a, b) in L.heap.items():
            v = b[0] if isinstance(b, tuple) else b
            if isinstance(v, Sym) and v.kind == 'int':
                self.at(it, v.e)
        return []

    def run(self, it):
        c = it.ctx
        p = object.__new__(self.resolve(PA + ':_HighLevelParser'))
        src = SStr('src')
        n = z3.Length(src.e)
        self.p0, self.bp = z3.Int('start'), z3.Int('breakPoint')
        c.assume(z3.And(self.p0 >= 0, self.p0 <= self.bp, self.bp <= n))
        p._src, p._srcLen = src, SInt(n)
        p._pos, p._breakPoint = SInt(self.p0), SInt(self.bp)
        self.token = FModel(None, 'match')
        got = []

        class Comp(object):
            pass
        comp = Comp()
        comp.addStrConst = FModel(lambda it_, a, k: got.append(a[0]), 'add')
        p._compiler = comp
        self.at(it, self.p0)
        out = self.outcome(it, self.resolve(), [p])
        c.prove('returns', out.kind == 'return')
        if out.kind != 'return':
            return
        pos = M.iterm(p._pos)
        self.at(it, pos)
        c.prove('stops at the first token or the end', pos == First(self.p0))
        c.prove('one piece of text is added', len(got) == 1)
        if len(got) == 1:
            t = z3.SubString(src.e, self.p0, pos - self.p0)
            g = M.sterm(got[0])
            c.prove('it is the text up to there, unescaped', z3.Or(
                g == uD(uV(t)), g == uV(uD(t))))


UNITS = [Commit, Append, Chunk, WS, UnescapeVars, UnescapeDirectives, Plain]
