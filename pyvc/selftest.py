"""Cross-check of pyvc against CPython: every function of selftest_fns is run
by CPython on concrete arguments and by pyvc on symbolic ones of which only
the value is assumed; pyvc must prove CPython's result and refute another one.
usage: python3-vt -m pyvc.selftest"""
import itertools
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import z3  # noqa: E402
from pyvc import selftest_fns as F  # noqa: E402
from pyvc.values import SStr, SInt, Sym, zstr  # noqa: E402
from pyvc.runner import Unit, verify  # noqa: E402
from pyvc.interp import SourceIndex, VList  # noqa: E402

TEXTS = ['', 'a', 'ab', 'aab,ba', 'b\nx', '\u0416<']
INTS = [-2, 0, 1, 2, 5]
KIND = {'a': TEXTS, 'b': TEXTS, 'n': INTS, 'm': INTS}


def term(v):
    return z3.IntVal(v) if isinstance(v, int) else zstr(v)


def equal(got, want, c):
    """formula: the symbolic value is this one"""
    if isinstance(want, (tuple, list)):
        got = list(getattr(got, 'items', got)) if isinstance(got, VList) \
            else list(got)
        if len(got) != len(want):
            return False
        r = [equal(g, w, c) for g, w in zip(got, want)]
        return z3.And(*[x if z3.is_expr(x) else z3.BoolVal(x) for x in r]) \
            if r else True
    if isinstance(got, Sym):
        if isinstance(want, bool):
            return got.e == z3.BoolVal(want) if z3.is_bool(got.e) else False
        if want is None:
            return False
        return got.e == term(want)
    return got == want and isinstance(got, bool) == isinstance(want, bool)


class One(Unit):
    unroll_while_true = concrete_loops = True
    budget_s = 20

    def __init__(self, name, args, want, wrong=False):
        self.target = 'pyvc.selftest_fns:' + name
        self.name = '%s%r' % (name, args)
        self.args, self.want, self.wrong = args, want, wrong

    def run(self, it):
        sy = []
        for i, a in enumerate(self.args):
            s = (SInt if isinstance(a, int) else SStr)('arg%d' % i)
            it.ctx.assume(s.e == term(a))
            sy.append(s)
        out = self.outcome(it, self.resolve(), sy)
        it.ctx.prove('returns', out.kind == 'return')
        it.ctx.prove('as CPython', equal(out.value, self.want, it.ctx))


def other(w):
    if isinstance(w, (tuple, list)):
        return type(w)(other(x) for x in w) if w else (1,)
    if isinstance(w, bool):
        return not w
    if w is None:
        return 3
    return w + 1 if isinstance(w, int) else w + '!'


def main():
    src = SourceIndex(os.path.join(HERE, 'pyvc', 'selftest_fns.py'))
    src.owns_class = lambda c: c.__module__ == 'pyvc.selftest_fns'
    n = skipped = 0
    bad = []
    for name, f in sorted(vars(F).items()):
        if not callable(f) or isinstance(f, type):
            continue
        ps = f.__code__.co_varnames[:f.__code__.co_argcount]
        for i, args in enumerate(itertools.product(*[KIND[p] for p in ps])):
            want = f(*args)
            r = verify(One(name, args, want), src)
            n += 1
            if r.status == 'refuted':
                bad.append((name, args, want, r.refuted))
            elif r.status != 'proved':
                skipped += 1
            if i % 7 == 0 and r.status == 'proved':
                r = verify(One(name, args, other(want)), src)
                if r.status == 'proved':
                    bad.append((name, args, 'a wrong result was proved'))
                n += 1
    print('%d runs, %d not decided, %d disagreements' % (n, skipped,
                                                         len(bad)))
    for b in bad[:10]:
        print(b)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
