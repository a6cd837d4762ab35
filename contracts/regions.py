"""Contracts for output regions (C07).

The real compiler translates templates in which a region directly contains
another one, for every ordered pair of region kinds; the generated methods
are executed symbolically, for arbitrary texts of all values and arbitrary
(uninterpreted) filters and functions.  What a region does to the output
depends on its body only by the text the body writes, and by the body leaving
the output state as it found it, which is what is proved of every region
here: by induction over the nesting the pairs stand for every depth."""
import random
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import FModel
from pyvc import models as M
from contracts.staged import StagedUnit, generate
from explore import C07 as X

KINDS = X.REGIONS[:9]
FF = {k: z3.Function('filter' + k, StrSort, StrSort)
      for k in ('F0', 'F1', 'F2')}
CALL = z3.Function('call', StrSort, StrSort)
CALLP = z3.Function('callp', StrSort, StrSort)
VALS = {k: z3.String('value_' + k) for k in 'ab'}


def kwcall(names, p):
    return z3.Function('kwcall_%s_%s' % ('_'.join(names), p),
                       *([StrSort] * (len(names) + 1)))


class Sem(X.Sem):
    def cat(self, a, b):
        return b if a is None else z3.Concat(a, b)

    def ev(self, ns, flt, env, buf):
        out = [zstr('')]
        f = FF['F0' if flt == 'None' else flt]
        nl = zstr(self.nl)
        for n in ns:
            k = n[0]
            if k == 'text':
                out.append(zstr(n[1] + self.nl))
            elif k == 'val':
                if n[1] != 'n':
                    out.append(f(VALS[n[1]]))
                out.append(nl)
            elif k == 'var':
                out += [f(env[n[1]]), nl]
            elif k == 'ccall':
                out += [self.ev(self.bodies[n[1]], flt, env, buf), nl]
            elif k == 'mcall':
                t = self.ev(self.bodies[n[1]], flt, {}, buf)
                out += [t if self.trans and not buf else f(t), nl]
            elif k == 'capture':
                env[n[1]] = self.ev(n[2], flt, env, True)
            elif k == 'call':
                t = self.ev(n[3], flt, env, True)
                out.append(f((CALLP if n[2] else CALL)(t)))
            elif k == 'callarg':
                kw = {}
                for name, b in n[3]:
                    kw[name] = self.ev(b, flt, env, True)
                ks = sorted(kw)
                out.append(f(kwcall(ks, n[2])(*[kw[x] for x in ks])))
            elif k == 'cache':
                out.append(self.ev(n[2], flt, env, True))
            elif k == 'filter':
                out.append(self.ev(n[2], n[1], env, buf))
            elif k == 'block':
                out.append(self.ev(n[2], flt, {}, buf))
        out = [z3.simplify(x) for x in out]
        return z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0]


def fmodel(k):
    def run(it, a, kw):
        return Sym('str', FF[k](M.sterm(a[0])))
    return FModel(run, 'filter ' + k)


class Response(object):
    pass


class Pair(StagedUnit):
    outer = None
    budget_s = 200
    max_paths = 20000

    def lookup_in(self, it, obj, name):
        for part in name.split('.'):
            obj = it.getattr(obj, part)
        return obj

    def lookup(self, it, name):
        name, _, rest = name.partition('.')
        v = self.lookup1(it, name)
        return self.lookup_in(it, v, rest) if rest else v

    def lookup1(self, it, name):
        for fr in it.frames[::-1][:1]:
            if name in fr.locals:
                return fr.locals[name]
        if name in VALS:
            return Sym('str', VALS[name])
        if name == 'n':
            return None
        if name == 'f':
            return FModel(self.func, 'f')
        raise Unsupported('lookup of %s' % name)

    def func(self, it, a, kw):
        kw = dict(kw)
        p = kw.pop('p', None)
        if len(a) == 1 and not kw:
            return Sym('str', (CALLP if p == 1 else CALL)(M.sterm(a[0])))
        if a:
            it.ctx.prove('arguments of the call', False)
        ks = sorted(kw)
        return Sym('str', kwcall(ks, p == 1)(*[M.sterm(kw[x]) for x in ks]))

    def tree(self, inner):
        rng = random.Random(5)
        g = X.Gen(rng)
        sc = X.top()
        tree = [['text', 'x'], g.region(
            self.outer, sc, 1, lambda s1: [g.region(
                inner, s1, 1, lambda s2: [['val', 'b', s2['plain']]]),
                ['val', 'a', s1['plain']]]
            + [['var', v] for v in s1['vars']]
            + [['ccall', v] for v in s1['closures']]),
            ['text', 'y'], ['val', 'b', False]]
        tree += [['var', v] for v in sc['vars']]
        tree += [['mcall', m, False] for m in g.methods]
        tree += [['ccall', m] for m in sc['closures']]
        return tree

    def run(self, it):
        c = it.ctx
        if not hasattr(self, 'made'):
            self.made = {}
        inner = KINDS[c.choose(len(KINDS))]
        lines = bool(c.choose(2))
        if (inner, lines) not in self.made:
            tree = self.tree(inner)
            self.made[inner, lines] = tree, generate(
                self.scratch, X.source(tree, lines))
        tree, cls = self.made[inner, lines]
        t = cls()
        t._CHEETAH__currentFilter = t._CHEETAH__initialFilter = fmodel('F0')
        t._CHEETAH__filters = {k: fmodel(k) for k in FF}
        for k in VALS:
            setattr(t, 'u_' + k, Sym('str', VALS[k]))
        t.u_n = None
        t.u_f = FModel(self.func, 'f')
        for f in FF.values():
            c.assume(f(zstr('')) == zstr(''))
        trans = bool(c.choose(2))
        f0 = t._CHEETAH__currentFilter
        if trans:
            written = []
            r = Response()
            r.response = FModel(lambda i, a, k: r, 'response')
            r.write = FModel(lambda i, a, k: written.append(M.sterm(a[0])),
                             'write')
            t.transaction = r
        sem = Sem(tree, lines, trans)
        want = sem.ev(tree, 'F0', {}, False)
        out = self.outcome(it, cls.respond, [t])
        what = '%s in %s' % (inner, self.outer)
        c.prove('%s renders' % what, out.kind == 'return')
        if out.kind != 'return':
            return
        if trans:
            got = z3.Concat(zstr(''), zstr(''), *written)
            c.prove('%s writes to the transaction' % what,
                    M.sterm(out.value) == zstr(''))
        else:
            got = M.sterm(out.value)
        c.prove('%s: every text goes where it belongs' % what,
                z3.simplify(got) == want)
        c.prove('%s: the filter is what it was' % what,
                t._CHEETAH__currentFilter is f0)
        c.prove('%s: buffering is what it was' % what,
                t._CHEETAH__isBuffering is False)


TARGET = {'capture': 'MethodCompiler.startCaptureRegion',
          'call': 'MethodCompiler.startCallRegion',
          'callarg': 'MethodCompiler.setCallArg',
          'cache': 'MethodCompiler.startCacheRegion',
          'filter': 'MethodCompiler.setFilter',
          'nofilter': 'MethodCompiler.setFilter',
          'block': 'ClassCompiler.closeBlock',
          'def': 'AutoMethodCompiler._addAutoSetupCode',
          'closure': 'MethodCompiler.addClosure'}
UNITS = [type('Pair_' + k, (Pair,), {
    'outer': k, 'name': 'generated %s region' % k,
    'target': 'Cheetah.Compiler:' + TARGET[k]}) for k in KINDS]
