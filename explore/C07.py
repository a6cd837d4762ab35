"""Nested output regions, rendered by the real system and by a small
denotational interpreter of the same tree."""
import types

PURE = None
RULE = ('random trees of capture/call/arg/cache/filter/block/def/closure/if/'
        'for regions (depth <= 5) in inline and own-line style, rendered '
        'twice, with and without a transaction of the instance; all ordered '
        'triples of directly nested regions')
QUICK_S = 25
THOROUGH_S = 240
RISKY = False

T = None


def setup(scratch):
    global T, Filters
    from Cheetah.Template import Template
    from Cheetah import Filters
    T = Template


REGIONS = ['capture', 'call', 'callarg', 'cache', 'filter', 'nofilter',
           'block', 'def', 'closure', 'if', 'for']


# ---------------------------------------------------------------- generator
class Gen(object):
    def __init__(self, rng):
        self.rng, self.n = rng, 0
        self.methods = []

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def leaf(self, sc):
        r = self.rng.random()
        if r < .4:
            return ['text', self.new('t')]
        if r < .65:
            return ['val', self.rng.choice(['a', 'b', 'n']), sc['plain']]
        if r < .8 and sc['vars']:
            return ['var', self.rng.choice(sc['vars'])]
        if r < .9 and sc['closures']:
            return ['ccall', self.rng.choice(sc['closures'])]
        if self.methods:
            return ['mcall', self.rng.choice(self.methods), sc['plain']]
        return ['text', self.new('t')]

    def body(self, sc, depth, kinds=None):
        sc = dict(sc, vars=list(sc['vars']), closures=list(sc['closures']))
        out = []
        for i in range(self.rng.randint(0 if depth < 3 else 1, 3)):
            if depth > 0 and self.rng.random() < .6:
                out.append(self.region(self.rng.choice(REGIONS), sc, depth))
            else:
                out.append(self.leaf(sc))
        if not any(x[0] == 'text' for x in out):
            out.append(['text', self.new('t')])
        return out

    def region(self, k, sc, depth, inner=None):
        def body(sc):
            if inner is not None:
                sc = dict(sc, vars=list(sc['vars']),
                          closures=list(sc['closures']))
                return [['text', self.new('t')],
                        ['val', 'a', sc['plain']]] + inner(sc) + [
                            self.leaf(sc), ['text', self.new('t')]]
            return self.body(sc, depth - 1)
        if k == 'capture':
            v = self.new('v')
            b = body(sc)
            sc['vars'].append(v)
            return ['capture', v, b]
        if k == 'call':
            return ['call', sc['plain'], self.rng.random() < .3, body(sc)]
        if k == 'callarg':
            return ['callarg', sc['plain'], self.rng.random() < .3,
                    [[self.new('k'), body(sc)]
                     for i in range(self.rng.randint(1, 3))]]
        if k == 'cache':
            return ['cache', self.new('c'), body(sc)]
        if k == 'filter':
            return ['filter', self.rng.choice(['F1', 'F2']), body(sc)]
        if k == 'nofilter':
            return ['filter', 'None', body(sc)]
        if k in ('block', 'def'):
            if k == 'def' and sc['indef']:
                k = 'ndef'
            else:
                m = self.new('m')
                b = body({'vars': [], 'closures': [], 'plain': sc['plain'],
                          'indef': sc['indef'] or k == 'def'})
                self.methods.append(m)
                return [k, m, b]
        if k in ('closure', 'ndef'):
            c = self.new('g')
            b = body(dict(sc, plain=True, indef=sc['indef'] or k == 'ndef'))
            sc['closures'].append(c)
            return [k, c, b]
        if k == 'if':
            return ['if', self.rng.random() < .7, body(sc)]
        if k == 'for':
            return ['for', self.new('i'), 2, body(sc)]
        raise ValueError(k)


TOP = {'vars': [], 'closures': [], 'plain': False, 'indef': False}


def top():
    return dict(TOP, vars=[], closures=[])


# ---------------------------------------------------------------- template
def source(nodes, lines):
    nl = '\n' if lines else ''

    def d(s):
        return '#%s\n' % s if lines else '#%s#' % s

    def src(ns):
        out = ''
        for n in ns:
            k = n[0]
            if k == 'text':
                out += n[1] + nl
            elif k == 'val':
                out += '${%s%s}' % ('self.u_' if n[2] else '', n[1]) + nl
            elif k == 'var':
                out += '${%s}' % n[1] + nl
            elif k == 'ccall':
                out += '${%s()}' % n[1] + nl
            elif k == 'mcall':
                out += '${self.%s()}' % n[1] + nl
            elif k == 'capture':
                out += d('capture ' + n[1]) + src(n[2]) + d('end capture')
            elif k == 'call':
                out += d('call $%s%s' % ('self.u_f' if n[1] else 'f',
                                         ' p=1' if n[2] else '')) + \
                    src(n[3]) + d('end call')
            elif k == 'callarg':
                out += d('call $%s%s' % ('self.u_f' if n[1] else 'f',
                                         ' p=1' if n[2] else ''))
                for name, b in n[3]:
                    out += d('arg ' + name) + src(b)
                out += d('end call')
            elif k == 'cache':
                out += d('cache') + src(n[2]) + d('end cache')
            elif k == 'filter':
                out += d('filter ' + n[1]) + src(n[2]) + d('end filter')
            elif k in ('block', 'def', 'closure'):
                out += d('%s %s' % (k, n[1])) + src(n[2]) + d('end ' + k)
            elif k == 'ndef':
                out += d('def ' + n[1]) + src(n[2]) + d('end def')
            elif k == 'if':
                out += d('if %d' % n[1]) + src(n[2]) + d('end if')
            elif k == 'for':
                out += d('for $%s in range(%d)' % (n[1], n[2])) + \
                    src(n[3]) + d('end for')
        return out
    return src(nodes)


VALUES = {'a': 'A<', 'b': 'B&', 'n': None}


def F(name):
    def f(v):
        s = '' if v is None else str(v)
        return '{%s:%s}' % (name, s) if s else ''
    return f


FS = {'F0': F('0'), 'F1': F('1'), 'F2': F('2'), 'None': F('0')}


def func(*a, **k):
    return 'f(%s|%s)' % (','.join(a), ','.join(
        '%s=%s' % (x, k[x]) for x in sorted(k)))


# ---------------------------------------------------------------- semantics
class Sem(object):
    def __init__(self, tree, lines, trans):
        self.nl = '\n' if lines else ''
        self.trans = trans
        self.cached = {}
        self.bodies = {}
        self.walk(tree)

    def walk(self, ns):
        for n in ns:
            if n[0] in ('block', 'def', 'closure', 'ndef'):
                self.bodies[n[1]] = n[2]
            if n[0] == 'callarg':
                for _, b in n[3]:
                    self.walk(b)
            elif isinstance(n[-1], list):
                self.walk(n[-1])

    def ev(self, ns, flt, env, buf):
        """text of the nodes; flt: active filter; buf: inside of a region
        that collects its output"""
        out = ''
        f = FS[flt]
        for n in ns:
            k = n[0]
            if k == 'text':
                out += n[1] + self.nl
            elif k == 'val':
                v = VALUES[n[1]]
                out += ('' if v is None else f(v)) + self.nl
            elif k == 'var':
                out += f(env[n[1]]) + self.nl
            elif k == 'ccall':
                out += self.ev(self.bodies[n[1]], flt, env, buf) + self.nl
            elif k == 'mcall':
                t = self.ev(self.bodies[n[1]], flt, {}, buf)
                out += (t if self.trans and not buf else f(t)) + self.nl
            elif k == 'capture':
                env[n[1]] = self.ev(n[2], flt, env, True)
            elif k == 'call':
                t = self.ev(n[3], flt, env, True)
                out += f(func(t, **({'p': 1} if n[2] else {})))
            elif k == 'callarg':
                kw = {'p': 1} if n[2] else {}
                for name, b in n[3]:
                    kw[name] = self.ev(b, flt, env, True)
                out += f(func(**kw))
            elif k == 'cache':
                if n[1] not in self.cached:
                    self.cached[n[1]] = self.ev(n[2], flt, env, True)
                out += self.cached[n[1]]
            elif k == 'filter':
                out += self.ev(n[2], n[1], env, buf)
            elif k == 'block':
                out += self.ev(n[2], flt, {}, buf)
            elif k == 'if':
                if n[1]:
                    out += self.ev(n[2], flt, env, buf)
            elif k == 'for':
                for i in range(n[2]):
                    out += self.ev(n[3], flt, env, buf)
        return out


def flib():
    lib = types.ModuleType('regionfilters')
    for name in ('F0', 'F1', 'F2'):
        def mk(name):
            class C(Filters.Filter):
                def filter(self, val, **kw):
                    return FS[name](val)
            C.__name__ = name
            return C
        setattr(lib, name, mk(name))
    return lib


class Trans(object):
    def __init__(self):
        self.out = []

    def response(self):
        return self

    def write(self, s):
        self.out.append(s)


def check(case):
    try:
        return check1(case)
    except Exception as e:
        return '%s: %s from %r' % (type(e).__name__, e, source(
            case['tree'], case['lines']))


def check1(case):
    tree, lines, trans = case['tree'], case['lines'], case['trans']
    src = source(tree, lines)
    cls = T.compile(src, useCache=False, cacheCompilationResults=False)
    ns = dict(VALUES)
    ns['f'] = func
    t = cls(searchList=[ns], filter='F0', filtersLib=flib())
    for k, v in VALUES.items():
        setattr(t, 'u_' + k, v)
    t.u_f = func
    sem = Sem(tree, lines, trans)
    for i in range(2):
        want = sem.ev(tree, 'F0', {}, False)
        if trans:
            t.transaction = Trans()
            r = t.respond()
            got = ''.join(t.transaction.out)
            if r:
                return 'respond() returned %r although it has a transaction' \
                    ' (source %r)' % (r, src)
        else:
            got = t.respond()
        if got != want:
            return 'rendering %d of %r\n gave %r\n not  %r' % (
                i + 1, src, got, want)
        if t._CHEETAH__currentFilter('x') != '{0:x}':
            return 'the filter is not restored: %r' % src
        if t._CHEETAH__isBuffering:
            return 'still buffering after %r' % src
    return None


def cases(rng, tier):
    # every ordered triple of directly nested regions
    for trans in (False, True):
        for a in REGIONS:
            for b in REGIONS:
                for c in REGIONS[:9]:
                    g = Gen(rng)
                    sc = top()
                    tree = [['text', 'x'], g.region(
                        a, sc, 1, lambda s1: [g.region(
                            b, s1, 1, lambda s2: [g.region(
                                c, s2, 1, lambda s3: [g.leaf(s3)]),
                                g.leaf(s2)]), g.leaf(s1)]),
                        g.leaf(sc), ['text', 'y'], ['val', 'b', False]]
                    tree += [['mcall', m, False] for m in g.methods]
                    tree += [['ccall', m] for m in sc['closures']]
                    yield {'tree': tree, 'lines': rng.random() < .5,
                           'trans': trans}
    while True:
        g = Gen(rng)
        sc = top()
        tree = g.body(sc, rng.randint(1, 5))
        tree += [['mcall', m, False] for m in g.methods[-2:]]
        tree += [['ccall', m] for m in sc['closures']]
        yield {'tree': tree, 'lines': rng.random() < .5,
               'trans': rng.random() < .4}
