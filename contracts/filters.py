"""Contracts for Cheetah/Filters.py and Utils/htmlEncode.py, htmlDecode.py.

Texts of unbounded length are treated in the 'homomorphism' domain: a value
is h(s) for an arbitrary text s, where h maps every character to its image.
 * replacing a single character is pointwise, so it is enough to follow the
   image of one arbitrary (skolem) character c;
 * replacing a longer pattern is pointwise when every occurrence of the
   pattern in a concatenation of images lies inside one image, which is
   decided exactly on the finite quotient {mapped characters} + {any other
   character} (Alignment below).
"""
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import VList
from pyvc.runner import Unit, Outcome
from pyvc import models as M
from pyvc.world import World

FI = 'Cheetah.Filters'


class FWorld(World):
    def isinstance(self, it, o, c):
        # the unit's object value is by assumption not a text
        if c is str:
            return False
        return World.isinstance(self, it, o, c)

    def identical(self, it, a, b):
        if a is None or b is None:
            return False
        return World.identical(self, it, a, b)


class FUnit(Unit):
    def world(self):
        return FWorld()


class FilterFilter(FUnit):
    name = 'Filters.Filter.filter'
    target = FI + ':Filter.filter'

    def run(self, it):
        c = it.ctx
        k = c.choose(3)
        v = [None, SStr('val'), SObj('val')][k]
        f = _inst(self.resolve(FI + ':Filter'))
        out = self.outcome(it, self.resolve(), [f, v])
        c.prove('returns a text', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        exp = zstr('') if k == 0 else v.e if k == 1 else M.strOf(v.e)
        c.prove(['None becomes the empty text', 'a text is unchanged',
                 'any other value becomes its text'][k],
                M.sterm(out.value) == exp)


def _inst(cls):
    return object.__new__(cls)


class MaxLen(FUnit):
    name = 'Filters.MaxLen.filter'
    target = FI + ':MaxLen.filter'

    def run(self, it):
        c = it.ctx
        s, n = SStr('val'), SInt('maxlen')
        c.assume(n.e >= 0)
        kw = {'maxlen': n} if c.choose(2) else {}
        f = _inst(self.resolve(FI + ':MaxLen'))
        out = self.outcome(it, self.resolve(), [f, s], kw)
        c.prove('returns a text', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        r = M.sterm(out.value)
        if not kw:
            c.prove('no limit: unchanged', r == s.e)
        else:
            c.prove('never longer than the limit', z3.Length(r) <= n.e)
            c.prove('a prefix of the text', z3.PrefixOf(r, s.e))
            c.prove('cut only where the limit is', z3.Or(
                r == s.e, z3.Length(r) == n.e))


# ------------------------------------------------------- homomorphisms

def hom(image):
    """the text h(s), s arbitrary, where h(c) = image for the skolem c"""
    return Sym('str', z3.Const('h_s', StrSort), {'image': image})


class Pointwise(FUnit):
    """follows the image of one arbitrary character"""
    entity = set('&#;0123456789abcdefghijklmnopqrstuvwxyz')

    def str_replace(self, it, o, old, new):
        if not (isinstance(o, Sym) and o.meta and 'image' in o.meta):
            raise Unsupported('replace on symbolic string')
        ctx = it.ctx
        im = o.meta['image']
        oldt = M.sterm(old)
        if isinstance(old, str) and len(old) != 1:
            raise Unsupported('pointwise replace of %r' % old)
        if not isinstance(old, str):
            if ctx.valid(z3.Length(oldt) == 1)[0] != 'proved':
                raise Unsupported('pointwise replace of a longer pattern')
        if isinstance(im, str) and im == 'id':
            if ctx.decide(self.c == oldt):
                return hom(new)
            return o
        if isinstance(im, str):
            for ch in sorted(set(im)):
                if ctx.decide(oldt == zstr(ch)):
                    if not isinstance(new, str):
                        raise Unsupported('symbolic replacement in image')
                    return hom(im.replace(ch, new))
            return o
        # a numeric reference: only & # ; and digits in it
        for ch in sorted('&#;0123456789'):
            if ctx.decide(oldt == zstr(ch)):
                raise Unsupported('character of a numeric reference')
        return o


class WebSafe(Pointwise):
    name = 'Filters.WebSafe.filter'
    target = FI + ':WebSafe.filter'
    nalso = None

    def run(self, it):
        ctx = it.ctx
        self.c = z3.Const('c', StrSort)
        ctx.assume(z3.Length(self.c) == 1)
        f = _inst(self.resolve(FI + ':WebSafe'))
        kw = {}
        ks = []
        if self.nalso is not None:
            for i in range(self.nalso):
                k = SStr('also%d' % i)
                ctx.assume(z3.Length(k.e) == 1)
                for ch in sorted(self.entity):
                    ctx.assume(k.e != zstr(ch))
                for ch in '<>':
                    ctx.assume(k.e != zstr(ch))
                ks.append(k)
            kw['also'] = VList(ks)
        out = self.outcome(it, self.resolve(), [f, hom('id')], kw)
        ok = out.kind == 'return' and isinstance(out.value, Sym) and \
            bool(out.value.meta) and 'image' in out.value.meta
        if out.kind == 'return' and not ok:
            raise Unsupported('result is not in the homomorphism domain')
        ctx.prove('returns the escaped text', ok)
        im = out.value.meta['image']
        c = self.c
        img = c if isinstance(im, str) and im == 'id' else M.sterm(im)
        for ch, e in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')):
            ctx.prove('%s is escaped' % ch,
                      z3.Implies(c == zstr(ch), img == zstr(e)))
        special = [c == zstr(x) for x in '&<>']
        asked = [c == k.e for k in ks]
        ctx.prove('nothing else is touched', z3.Implies(
            z3.Not(z3.Or(*(special + asked))), img == c))
        if ks:
            exp = z3.If(c == zstr(' '), zstr('&nbsp;'),
                        z3.If(c == zstr('"'), zstr('&quot;'), z3.Concat(
                            zstr('&#'), z3.IntToStr(z3.StrToCode(c)),
                            zstr(';'))))
            ctx.prove('a character asked for becomes its entity',
                      z3.Implies(z3.Or(*asked), img == exp))


class WebSafeAlso1(WebSafe):
    name = 'Filters.WebSafe.filter[also: one character]'
    nalso = 1


class WebSafeAlso2(WebSafe):
    name = 'Filters.WebSafe.filter[also: two characters]'
    nalso = 2


class Alignment(object):
    """h as a finite map; every other character is its own image"""
    OTHER = '\ufffe'      # stands for any character not mentioned

    def __init__(self, m):
        self.m = dict(m)

    def replace(self, old, new):
        alphabet = set(self.m) | set(old) | set(new) | {self.OTHER}
        for v in self.m.values():
            alphabet |= set(v)
        m = {a: self.m.get(a, a) for a in alphabet}
        if len(old) != 1:
            self.aligned(m, old)
        m2 = {a: v.replace(old, new) for a, v in m.items()}
        return Alignment({a: v for a, v in m2.items() if v != a})

    @staticmethod
    def aligned(m, old):
        """every occurrence of old in a word over images lies in one image
        (search over the start image and offset, then the images that
        continue it: finite because each step consumes pattern)"""
        imgs = list(m.values())
        for im in imgs:
            for off in range(len(im)):
                tail = im[off:]
                if len(tail) >= len(old):
                    continue        # inside this image or not at all
                if not old.startswith(tail):
                    continue
                todo = [old[len(tail):]]
                seen = set()
                while todo:
                    rest = todo.pop()
                    if rest in seen:
                        continue
                    seen.add(rest)
                    for j in imgs:
                        if not j:
                            continue
                        if j.startswith(rest) or rest == j:
                            raise Unsupported(
                                'an occurrence of %r may span images' % old)
                        if rest.startswith(j):
                            todo.append(rest[len(j):])
        # overlapping occurrences inside one image: str.replace is leftmost,
        # image by image, because no occurrence crosses a border

    def word(self):
        return Sym('str', z3.Const('h_s', StrSort), {'map': self})


class HomUnit(FUnit):
    def str_replace(self, it, o, old, new):
        if not (isinstance(o, Sym) and o.meta and 'map' in o.meta and
                isinstance(old, str) and isinstance(new, str) and old):
            raise Unsupported('replace on symbolic string')
        return o.meta['map'].replace(old, new).word()

    def map_of(self, out):
        if out.kind == 'return' and isinstance(out.value, Sym) and \
                out.value.meta and 'map' in out.value.meta:
            return out.value.meta['map'].m
        if out.kind == 'return':
            raise Unsupported('result is not in the homomorphism domain')
        return None


class HtmlEncode(HomUnit):
    name = 'htmlEncode.htmlEncode'
    target = 'Cheetah.Utils.htmlEncode:htmlEncode'
    EXP = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;'}

    def run(self, it):
        out = self.outcome(it, self.resolve(), [Alignment({}).word()])
        it.ctx.prove('encodes exactly the four characters',
                     self.map_of(out) == self.EXP)


class HtmlRoundTrip(HomUnit):
    name = 'htmlDecode.htmlDecode'
    target = 'Cheetah.Utils.htmlDecode:htmlDecode'

    def run(self, it):
        enc = self.outcome(it, self.resolve(
            'Cheetah.Utils.htmlEncode:htmlEncode'), [Alignment({}).word()])
        self.map_of(enc)
        out = self.outcome(it, self.resolve(), [enc.value])
        it.ctx.prove('decoding is the inverse of encoding, on every text',
                     self.map_of(out) == {})


# ------------------------------------------------------------ Strip

Sp = z3.Function('stripFrom', z3.IntSort(), StrSort)


class Strip(FUnit):
    """stripFrom(p) is the documented result for the rest of the text from p:
    the lines are stripped one by one, line ends stay"""
    name = 'Filters.Strip.filter'
    target = FI + ':Strip.filter'
    bound = 2

    def unfold(self, p):
        s = self.s
        n = z3.Length(s)
        e = z3.IndexOf(s, zstr('\n'), p)
        return Sp(p) == z3.If(
            e < 0, M.stripF(z3.SubString(s, p, n - p)),
            z3.Concat(M.stripF(z3.SubString(s, p, e - p)), zstr('\n'),
                      Sp(e + 1)))

    def done(self, v):
        t = M.joinF(zstr(''), v.pre.e) if v.pre is not None else zstr('')
        parts = [t] + [M.sterm(x) for x in v]
        return z3.Concat(*parts) if len(parts) > 1 else t

    def candidates(self, it, L):
        out = []
        n = z3.Length(self.s)
        for a, v in L.vars.items():
            if isinstance(v, int) and not isinstance(v, bool):
                v = Sym('int', z3.IntVal(v))
            if not (isinstance(v, Sym) and v.kind == 'int'):
                continue
            out.append(('%s within text' % a, z3.And(v.e >= 0, v.e <= n)))
            lists = dict(L.vars)
            lists.update((repr(k), x[0]) for k, x in L.heap.items())
            for b, r in lists.items():
                if isinstance(r, VList):
                    try:
                        out.append(('%s+%s' % (b, a), z3.Concat(
                            self.done(r), Sp(v.e)) == Sp(0)))
                    except Unsupported:
                        pass
                if isinstance(r, str) or isinstance(r, Sym) and \
                        r.kind == 'str':
                    out.append(('%s+%s' % (b, a), z3.Concat(
                        M.sterm(r), Sp(v.e)) == Sp(0)))
        return out

    def loop_axioms(self, it, L):
        out = []
        for a, v in L.vars.items():
            if isinstance(v, Sym) and v.kind == 'int':
                out.append(self.unfold(v.e))
        for v in list(L.vars.values()) + [x[0] for x in L.heap.values()]:
            if isinstance(v, VList) and v.pre is not None:
                out.append(z3.Implies(z3.Length(v.pre.e) == 0, M.joinF(
                    zstr(''), v.pre.e) == zstr('')))
        return out

    def run(self, it):
        c = it.ctx
        v = SStr('val')
        self.s = v.e
        c.assume(self.unfold(z3.IntVal(0)))
        e = z3.IndexOf(self.s, zstr('\n'), 0)
        for _ in range(c.s.bound * 4 + 2 if c.s.loop_mode != 'inv' else 0):
            c.assume(self.unfold(e + 1))
            e = z3.IndexOf(self.s, zstr('\n'), e + 1)
        f = _inst(self.resolve(FI + ':Strip'))
        out = self.outcome(it, self.resolve(), [f, v])
        c.prove('returns a text', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        c.prove('every line is stripped, every line end kept',
                M.sterm(out.value) == Sp(0))


class StripSqueeze(FUnit):
    name = 'Filters.StripSqueeze.filter'
    target = FI + ':StripSqueeze.filter'
    words = z3.Function('words', StrSort, z3.SeqSort(StrSort))

    def str_method(self, it, o, name, args, kw):
        if name == 'split' and not args and not kw:
            return VList([], SList(self.words(M.sterm(o)), M.CODECS['str']))
        return NotImplemented

    def run(self, it):
        c = it.ctx
        v = SStr('val')
        f = _inst(self.resolve(FI + ':StripSqueeze'))
        out = self.outcome(it, self.resolve(), [f, v])
        c.prove('returns a text', out.kind == 'return' and
                M.kind_of(out.value) == 'str')
        c.prove('the words joined by single spaces',
                M.sterm(out.value) == M.joinF(zstr(' '), self.words(v.e)))


UNITS = [FilterFilter, MaxLen, WebSafe, WebSafeAlso1, WebSafeAlso2,
         HtmlEncode, HtmlRoundTrip, Strip, StripSqueeze]
