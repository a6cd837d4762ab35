"""Contracts for Cheetah/SourceReader.py and the error report (C05).

Specification: E(p) is the first position >= p that is a line end (LF, CR,
CRLF) or the end of the text, W(p) the position behind that line end;
bol(0) = 0, bol(i+1) = W(bol(i)); `last` is the first row whose line ends at
the end of the text (it exists, because bol grows with every row before it).
Row i is src[bol(i) : E(bol(i))].
"""
import bisect
import re
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import VList, PyRaise
from pyvc.runner import Unit
from pyvc import models as M
from pyvc.loops import list_term
from contracts import regexwin

SR = 'Cheetah.SourceReader'
I_ = z3.IntSort()
E = z3.Function('lineEndFrom', I_, I_)
W = z3.Function('behindLineEndFrom', I_, I_)
bol = z3.Function('bol', I_, I_)
prefB = z3.Function('bols', I_, z3.SeqSort(I_))
prefE = z3.Function('eols', I_, z3.SeqSort(I_))
prefL = z3.Function('lines', I_, z3.SeqSort(StrSort))
last = z3.Int('last')


class Match(object):
    def __init__(self, p):
        self.p = p

    def start(self):
        return SInt(E(self.p))

    def end(self):
        return SInt(W(self.p))

    def span(self):
        return (self.start(), self.end())

    def group(self):
        raise SymUse('group')


class SRUnit(Unit):
    def setup(self, it, known=False):
        c = it.ctx
        self.src = SStr('src')
        self.n = z3.Length(self.src.e)
        n = self.n
        c.assume(bol(0) == 0)
        c.assume(z3.And(last >= 0, E(bol(last)) == n))
        for f in (prefB, prefE):
            c.assume(z3.Length(f(0)) == 0)
        c.assume(z3.Length(prefL(0)) == 0)
        for i in (z3.IntVal(0), last):
            self.at(it, i)
        r = object.__new__(self.resolve(SR + ':SourceReader'))
        r._src = self.src
        r._filename = None
        r._srcLen = SInt(n)
        r._breakPoint = SInt('breakPoint')
        r._pos = SInt('curPos')
        c.assume(z3.And(r._breakPoint.e >= 0, r._breakPoint.e <= n,
                        r._pos.e >= 0, r._pos.e <= r._breakPoint.e))
        r._bookmarks, r._posTobookmarkMap = {}, {}
        r._linesSrc = None
        if known:
            self.lists(r)
        return r

    def witness(self):
        return [last == 0, self.src.e == zstr('')]

    def lists(self, r):
        """what _findLines ensures"""
        r._BOLs = VList([], SList(prefB(last + 1), M.CODECS['int']))
        r._EOLs = VList([], SList(prefE(last + 1), M.CODECS['int']))
        r._srcLines = VList([], SList(prefL(last + 1), M.CODECS['str']))
        r._linesSrc = r._src

    def at(self, it, i):
        """the specification, instantiated for row i (0 <= i <= last), the
        rows before it lying in the text"""
        c = it.ctx
        p = bol(i)
        n = self.n
        c.assume(z3.Implies(z3.And(0 <= i, i <= last), z3.And(
            0 <= p, p <= n, p <= E(p), E(p) <= n,
            z3.Implies(i < last, z3.And(
                E(p) < n, W(p) > E(p), W(p) <= E(p) + 2, W(p) <= n)),
            z3.Implies(E(p) == n, W(p) == n),
            bol(i + 1) == W(p))))
        c.assume(z3.Implies(0 <= i, z3.And(
            prefB(i + 1) == z3.Concat(prefB(i), z3.Unit(p)),
            prefE(i + 1) == z3.Concat(prefE(i), z3.Unit(E(p))),
            prefL(i + 1) == z3.Concat(prefL(i), z3.Unit(
                self.line(i))))))
        for f in (prefB, prefE, prefL):
            c.assume(z3.Implies(i >= 0, z3.Length(f(i)) == i))
        # lemma 'rows': element i of the row tables
        c.assume(z3.Implies(z3.And(0 <= i, i <= last), z3.And(
            z3.Length(prefB(last + 1)) == last + 1,
            z3.Length(prefE(last + 1)) == last + 1,
            z3.Length(prefL(last + 1)) == last + 1,
            prefB(last + 1)[i] == p, prefE(last + 1)[i] == E(p),
            prefL(last + 1)[i] == self.line(i))))

    def line(self, i):
        p = bol(i)
        return z3.SubString(self.src.e, p, E(p) - p)

    def on_call(self, it, f, args, kw):
        c = it.ctx
        self_ = getattr(f, '__self__', None)
        if isinstance(self_, re.Pattern) and \
                getattr(f, '__name__', '') == 'search' and not kw and args \
                and args[0] is self.src:
            if not regexwin.is_line_end_or_end(self_):
                raise Unsupported('pattern is not "a line end or the end"')
            p = M.iterm(args[1]) if len(args) > 1 else z3.IntVal(0)
            return Match(p)
        if f in (bisect.bisect_right, bisect.bisect) and len(args) == 2:
            t = M.iterm(args[1])
            seq = args[0]
            if not (isinstance(seq, VList) and seq.pre is not None and
                    not len(seq) and seq.pre.e.eq(prefB(last + 1))):
                raise Unsupported('bisect on another list')
            # sortedness (lemma 'rows grow') is the library's precondition
            r = z3.Int(c.fresh('bisect'))
            c.assume(z3.And(r >= 0, r <= last + 1))
            self.at(it, r - 1)
            self.at(it, r)
            c.assume(z3.Implies(r > 0, bol(r - 1) <= t))
            c.assume(z3.Implies(r <= last, t < bol(r)))
            c.assume(z3.Implies(t >= bol(0), r >= 1))
            return SInt(r)
        return NotImplemented


class Rows(SRUnit):
    """lemmas about the specification, by induction"""
    name = 'lemma: rows grow and the row tables list them'
    target = SR + ':SourceReader._findLines'

    def witness(self):
        return []

    def run(self, it):
        c = it.ctx
        self.resolve()
        n = z3.Int('n')
        i, m = z3.Int('i'), z3.Int('m')
        p = bol(i)
        c.assume(z3.And(n >= 0, 0 <= i, 0 <= p, p <= n, p <= E(p),
                        E(p) < n, W(p) > E(p), W(p) <= n,
                        bol(i + 1) == W(p)))
        c.prove('a row before the last starts before the next one',
                z3.And(bol(i) < bol(i + 1), bol(i + 1) <= n))
        t = z3.Const('t', z3.SeqSort(I_))
        x = z3.Int('x')
        c.assume(z3.And(m >= 0, z3.Length(t) == m))
        t2 = z3.Concat(t, z3.Unit(x))
        j = z3.Int('j')
        c.prove('table length', z3.Length(t2) == m + 1)
        c.prove('new entry', t2[m] == x)
        c.prove('old entries', z3.Implies(z3.And(0 <= j, j < m),
                                          t2[j] == t[j]))


class FindLines(SRUnit):
    name = 'SourceReader._findLines'
    target = SR + ':SourceReader._findLines'

    def candidates(self, it, L):
        out = []
        k = L.k
        n = self.n
        vs = dict(L.vars)
        vs.update((repr(a), b[0]) for a, b in L.heap.items())
        for a, v in L.vars.items():
            t = v.e if isinstance(v, Sym) and v.kind == 'int' else \
                z3.IntVal(v) if isinstance(v, int) and \
                not isinstance(v, bool) else None
            if t is not None:
                out.append(('%s is the start of row k' % a, t == bol(k)))
        out.append(('k<=last', k <= last))
        for a, v in vs.items():
            if not isinstance(v, VList):
                continue
            for nm, f, cod in (('BOL', prefB, 'int'), ('EOL', prefE, 'int'),
                               ('line', prefL, 'str')):
                if v.pre is None:
                    if not len(v):
                        out.append(('%s: %s rows' % (a, nm), k == 0))
                    continue
                if v.pre.codec is not M.CODECS[cod]:
                    continue
                cur = v.pre.e
                for x in v:
                    cur = z3.Concat(cur, z3.Unit(v.pre.codec.enc(x)))
                out.append(('%s: %s rows' % (a, nm), cur == f(k)))
        if L.iter is not None:
            out.append(('in table', k <= last + 1))
        return out

    def loop_axioms(self, it, L):
        self.at(it, L.k)
        if L.iter is None:
            # `last` is the first row that ends at the end of the text
            it.ctx.assume(z3.Implies(z3.And(L.k <= last,
                                            E(bol(L.k)) == self.n),
                                     L.k == last))
        return []

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        if c.s.loop_mode != 'inv':
            for i in range(c.s.bound * 4 + 2):
                i = z3.IntVal(i)
                self.at(it, i)
                c.assume(z3.Implies(z3.And(i <= last, E(bol(i)) == self.n),
                                    i == last))
        out = self.outcome(it, self.resolve(), [r])
        c.prove('returns', out.kind == 'return')
        if out.kind != 'return':
            return
        for nm, f in (('_BOLs', prefB), ('_EOLs', prefE),
                      ('_srcLines', prefL)):
            v = getattr(r, nm, None)
            c.prove('%s is a list' % nm, isinstance(v, VList))
            cur = list_term(v, M.CODECS['str' if f is prefL else 'int'])
            c.prove('%s lists all rows' % nm, cur == f(last + 1))
        c.prove('remembers the text they belong to', r._linesSrc is r._src)


def found(it, args, kw):
    """contract of _findLines"""
    r = args[0]
    it.unit.lists(r)


class Using(SRUnit):
    def contracts(self):
        return {SR + ':SourceReader._findLines': found,
                SR + ':SourceReader.lineNum': line_num_contract}

    def pos(self, it, r):
        """an explicit or the current position"""
        c = it.ctx
        if c.choose(2):
            p = SInt('pos')
            c.assume(z3.And(p.e >= 0, p.e <= self.n))
            return [r, p], p.e
        return [r], r._pos.e


def line_num_contract(it, args, kw):
    u, c = it.unit, it.ctx
    r = args[0]
    p = args[1] if len(args) > 1 else kw.get('pos')
    t = r._pos.e if p is None else M.iterm(p)
    c.prove('position in the text (precondition of lineNum)',
            z3.And(t >= 0, t <= u.n))
    i = z3.Int(c.fresh('row'))
    c.assume(z3.And(0 <= i, i <= last))
    u.at(it, i)
    u.at(it, i + 1)
    c.assume(z3.And(bol(i) <= t, z3.Implies(i < last, t < bol(i + 1))))
    u.lists(r)
    u.row = i
    return SInt(i)


class LineNum(Using):
    name = 'SourceReader.lineNum'
    target = SR + ':SourceReader.lineNum'

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        args, t = self.pos(it, r)
        out = self.outcome(it, self.resolve(), args)
        c.prove('returns a number', out.kind == 'return' and
                M.kind_of(out.value) == 'int')
        i = M.iterm(out.value)
        self.at(it, i)
        self.at(it, i + 1)
        c.prove('an existing row', z3.And(0 <= i, i <= last))
        c.prove('the row starts at or before the position', bol(i) <= t)
        c.prove('the next row starts behind it', z3.Implies(
            i < last, t < bol(i + 1)))
        c.prove('does not move', r._pos.e == z3.Int('curPos'))


class RowCol(Using):
    name = 'SourceReader.getRowCol'
    target = SR + ':SourceReader.getRowCol'

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        self.row = None
        args, t = self.pos(it, r)
        out = self.outcome(it, self.resolve(), args)
        c.prove('returns', out.kind == 'return' and isinstance(
            out.value, tuple) and len(out.value) == 2)
        row, col = map(M.iterm, out.value)
        i = row - 1
        self.at(it, i)
        self.at(it, i + 1)
        c.prove('row of the position', z3.And(
            0 <= i, i <= last, bol(i) <= t,
            z3.Implies(i < last, t < bol(i + 1))))
        c.prove('row and column give the position back',
                bol(row - 1) + col - 1 == t)
        c.prove('columns start at one', col >= 1)


class RowColLine(Using):
    name = 'SourceReader.getRowColLine'
    target = SR + ':SourceReader.getRowColLine'

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        args, t = self.pos(it, r)
        out = self.outcome(it, self.resolve(), args)
        c.prove('returns', out.kind == 'return' and isinstance(
            out.value, tuple) and len(out.value) == 3)
        row, col = map(M.iterm, out.value[:2])
        self.at(it, row - 1)
        self.at(it, row)
        c.prove('row of the position', z3.And(
            0 <= row - 1, row - 1 <= last, bol(row - 1) <= t,
            z3.Implies(row - 1 < last, t < bol(row))))
        c.prove('row and column give the position back',
                bol(row - 1) + col - 1 == t)
        c.prove('the text of that row',
                M.sterm(out.value[2]) == self.line(row - 1))


class GetLine(Using):
    name = 'SourceReader.getLine'
    target = SR + ':SourceReader.getLine'

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        args, t = self.pos(it, r)
        if len(args) < 2:
            args.append(None)
        self.row = None
        out = self.outcome(it, self.resolve(), args)
        c.prove('returns a text', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        if self.row is None:
            raise Unsupported('row not computed by lineNum')
        c.prove('the text of the row of the position',
                M.sterm(out.value) == self.line(self.row))


class SplitLines(Using):
    name = 'SourceReader.splitlines'
    target = SR + ':SourceReader.splitlines'

    def run(self, it):
        c = it.ctx
        r = self.setup(it)
        out = self.outcome(it, self.resolve(), [r])
        v = out.value
        c.prove('returns a list', out.kind == 'return' and isinstance(
            v, VList))
        c.prove('all rows, in order',
                list_term(v, M.CODECS['str']) == prefL(last + 1))


class Report(Using):
    name = 'Parser.ParseError.report'
    target = 'Cheetah.Parser:ParseError.report'
    max_paths = 6000

    def contracts(self):
        d = Using.contracts(self)
        d[SR + ':SourceReader.getRowColLine'] = self.rcl
        return d

    def rcl(self, it, args, kw):
        return (SInt(z3.Int('row')), SInt(z3.Int('col')), SStr('line'))

    def lists(self, r):
        r._srcLines = VList([], SList(z3.Const('rows', z3.SeqSort(StrSort)),
                                      M.CODECS['str']))

    def str_repeat(self, it, s, n):
        f = z3.Function('spaces', I_, StrSort)
        if s != ' ':
            raise Unsupported('repeated text')
        return SStr(f(M.iterm(n)))

    def run(self, it):
        c = it.ctx
        r = object.__new__(self.resolve(SR + ':SourceReader'))
        r._filename = [None, 'f.tmpl'][c.choose(2)]
        self.src = r._src = SStr('src')
        c.assume(z3.Length(z3.Const('rows', z3.SeqSort(StrSort))) ==
                 last + 1)
        # contract of getRowColLine
        row, col = z3.Int('row'), z3.Int('col')
        c.assume(z3.And(last >= 0, 1 <= row, row <= last + 1, col >= 1))
        PE = self.resolve('Cheetah.Parser:ParseError')
        e = PE.__new__(PE)
        e.stream, e.msg, e.extMsg = r, SStr('msg'), ''
        e.lineno = e.col = None
        out = self.outcome(it, self.resolve(), [e])
        c.prove('never fails', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        c.prove('names line and column', z3.Contains(
            M.sterm(out.value), z3.Concat(
                zstr('Line '), z3.IntToStr(row),
                zstr(', column '), z3.IntToStr(col))))


UNITS = [Report, Rows, FindLines, LineNum, RowCol, RowColLine, GetLine, SplitLines]
