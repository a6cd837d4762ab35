"""Placeholder expressions and assignments against the Python expression they
stand for.  Values are terms that record every operation applied to them, so
that equal text means equal operations with equal operands."""
import re
import types

PURE = None
RULE = ('random expressions (names, attributes, calls with positional, '
        'keyword and star arguments, subscripts, slices, operators, literals, '
        'strings with special characters, nested placeholders) in every '
        'placeholder form, and local/global/module assignments with dotted '
        'and subscripted targets; operands are terms that record every '
        'operation; call order is logged')
QUICK_S = 25
THOROUGH_S = 240
RISKY = False

ATTRS = ['p', 'q', 'longer_name', 'X1']
NAMES = ['x', 'y', 'obj', 'a1']
FUNCS = ['f', 'g']
LOG = []


class V(object):
    def __init__(self, t):
        self.__dict__['t'] = t

    def __str__(self):
        return self.t
    __repr__ = __str__

    def __getattr__(self, n):
        if n in ATTRS:
            return V('%s.%s' % (self.t, n))
        if n in ('m', 'n'):
            return F('%s.%s' % (self.t, n))
        raise AttributeError(n)

    def __setattr__(self, n, v):
        LOG.append('%s.%s=%s' % (self.t, n, v))

    def __getitem__(self, k):
        if isinstance(k, str) and (k in ATTRS or k in 'mnope'):
            raise KeyError(k)
        if isinstance(k, slice):
            k = 'slice(%s,%s,%s)' % (k.start, k.stop, k.step)
        return V('%s[%s]' % (self.t, k))

    def __setitem__(self, k, v):
        LOG.append('%s[%s]=%s' % (self.t, k, v))

    def __iadd__(self, o):
        return V('(%s+=%s)' % (self.t, o))

    def __neg__(self):
        return V('(-%s)' % self.t)

    def __bool__(self):
        LOG.append('bool %s' % self.t)
        return len(self.t) % 2 == 0

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return V('(%s==%s)' % (self.t, o))

    def __iter__(self):
        return iter([V(self.t + '#0'), V(self.t + '#1')])


def _op(name, sym):
    def f(self, o):
        return V('(%s%s%s)' % (self.t, sym, o))

    def r(self, o):
        return V('(%s%s%s)' % (o, sym, self.t))
    setattr(V, '__%s__' % name, f)
    if name not in ('lt', 'ge'):
        setattr(V, '__r%s__' % name, r)


for _n, _s in (('add', '+'), ('sub', '-'), ('mul', '*'), ('mod', '%'),
               ('floordiv', '//'), ('pow', '**'), ('or', '|'), ('and', '&'),
               ('lshift', '<<'), ('lt', '<'), ('ge', '>=')):
    _op(_n, _s)


def F(name):
    """a function (the name mapper calls functions, not instances)"""
    def call(*a, **k):
        t = '%s(%s)' % (name, ','.join(
            [str(x) if isinstance(x, V) else repr(x) for x in a] +
            ['%s=%s' % (n, k[n] if isinstance(k[n], V) else repr(k[n]))
             for n in k]))
        LOG.append(t)
        return V(t)
    return call


T = None


def setup(scratch):
    global T, Filters
    from Cheetah.Template import Template
    from Cheetah import Filters
    T = Template


# ---------------------------------------------------------------- generator
STRS = ["'a b'", '"it\'s"', "'$x'", "'#if'", "')'", "']}'", "'\\n'", "''",
        "'a' 'b'", '"""t\'"q"""', "'\\\\'", "u'\\xe9'", "r'\\d'", "'##'",
        "'%s'", "'${x}'", "'a,b'", "':'", "'='"]
NUMS = ['0', '1', '2.5', '10', '1e3', '0x1F', '-1', '1.']
BIN = ['+', '-', '*', '%', '//', '**', '|', '&', '<<', '<', '>=', '==',
       'and', 'or', 'in', 'not in']


class Gen(object):
    """node -> pair (Cheetah text, Python text)"""
    nolambda = False

    def __init__(self, rng, ac):
        self.rng, self.ac = rng, ac

    def ws(self):
        r = self.rng.random()
        return '' if r < .75 else ' ' if r < .93 else '\n' if r < .97 \
            else '\t '

    def sp(self):
        r = self.rng.random()
        return ' ' if r < .86 else self.rng.choice(
            ['\n', '\r\n', '\r', ' \\\n', '\\\n', '\t', '  '])

    def args(self, d):
        rng = self.rng
        if d <= 0:
            return '()', '()'
        ch, py = [], []
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            c, p = self.expr(d - 1)
            ch.append(c)
            py.append(p)
        if rng.random() < .25:
            k = rng.choice(['k', 'key', 'x'])
            c, p = self.expr(d - 1)
            ch.append('%s%s=%s%s' % (k, self.ws(), self.ws(), c))
            py.append('%s=%s' % (k, p))
        if rng.random() < .08:
            ch.append('*[1,2]')
            py.append('*[1,2]')
        if rng.random() < .08:
            ch.append("**{'kk': 1}")
            py.append("**{'kk': 1}")
        s = ','
        return ('(' + self.ws() + (self.ws() + s + self.ws()).join(ch)
                + self.ws() + ')', '(' + ','.join(py) + ')')

    def index(self, d):
        rng = self.rng
        if rng.random() < .25:
            parts = [self.expr(d - 1) if rng.random() < .6 else ('', '')
                     for i in range(rng.choice([2, 2, 3]))]
            return '[' + ':'.join(a for a, b in parts) + ']', \
                '[' + ':'.join(b for a, b in parts) + ']'
        c, p = self.expr(d - 1)
        return '[' + self.ws() + c + self.ws() + ']', '[' + p + ']'

    def var(self, d, free=False):
        """a $variable without the $; free: anything may follow a call or a
        subscript"""
        rng = self.rng
        fn = rng.random() < .3
        n = rng.choice(FUNCS if fn else NAMES)
        ch, py = n, 'L(%r)' % n
        for i in range(rng.choice([0, 1, 1, 2, 3]) + 1):
            if i:
                fn = rng.random() < .3
                a = rng.choice(['m', 'n'] if fn else ATTRS)
                ch += '.' + a
                py += '.' + a
            # arguments, subscript or nothing
            if fn:
                if not self.ac or d > 0 and rng.random() < .7:
                    c, p = self.args(d)
                    ch, py = ch + c, py + p
                else:
                    py += '()'
                    if d > 0 and rng.random() < .3:
                        c, p = self.index(d)
                        ch, py = ch + c, py + p
            elif d > 0 and rng.random() < .25:
                c, p = self.index(d)
                ch, py = ch + c, py + p
        return ch, py

    def expr(self, d):
        rng = self.rng
        r = rng.random()
        if d <= 0 or r < .25:
            k = rng.random()
            if k < .35:
                t = rng.choice(NUMS)
                return t, t
            if k < .6:
                t = rng.choice(STRS)
                return t, t
            if k < .7:
                return rng.choice([('None',) * 2, ('True',) * 2,
                                   ("len('abc')",) * 2, ('[]',) * 2,
                                   ('()',) * 2, ('{}',) * 2])
            n = rng.choice(NAMES)
            return '$' + n, 'L(%r)' % n
        if r < .6:
            c, p = self.var(d - 1)
            return '$' + c, p
        if r < .75:
            (a, b), (c, e) = self.expr(d - 1), self.expr(d - 1)
            n = rng.choice(NAMES)
            o = rng.choice(BIN)
            u = rng.choice(['', '', '', 'not', '-', '~']) \
                if o in ('and', 'or') else ''
            return '(%s%s%s%s%s%s$%s)' % (
                a, rng.choice([' ', '']) if a[-1] not in
                '.' and not o[0].isalpha() else self.sp(), o, self.sp(), u,
                self.sp() if u == 'not' else '', n), \
                '(%s %s %s L(%r))' % (b, o, u, n)
        if r < .82:
            xs = [self.expr(d - 1) for i in range(rng.randint(1, 3))]
            o, c = rng.choice(['[]', '()'])
            t = ',' if o == '(' else ''
            return o + ', '.join(a for a, b in xs) + t + c, \
                o + ','.join(b for a, b in xs) + t + c
        if r < .88:
            a, b = self.expr(d - 1)
            return "{'k'%s:%s %s}" % (self.ws(), self.ws(), a), \
                "{'k':%s}" % b
        if r < .92:
            a, b = self.var(d - 1)
            n = rng.choice(NAMES)
            return '[$%s%sfor%si%sin%s$%s]' % (
                a, self.sp(), ' ', ' ', self.sp(), n), \
                '[%s for i in L(%r)]' % (b, n)
        if r < .96:
            (a, b), (c, e) = self.expr(d - 1), self.expr(d - 1)
            n = rng.choice(NAMES)
            return '(%s%sif%s$%s%selse%s%s)' % (
                a, self.sp(), self.sp(), n, self.sp(), self.sp(), c), \
                '(%s if L(%r) else %s)' % (b, n, e)
        a, b = self.expr(d - 1)
        if self.nolambda:       # a frame of its own: other local variables
            return '(%s)' % a, '(%s)' % b
        return '(lambda z: %s)(1)' % a, '(lambda z: %s)(1)' % b


def ph(g, rng, d):
    """a placeholder: (text, python expression)"""
    k = rng.choice(['plain', 'plain', 'brace', 'paren', 'square', 'exprb',
                    'exprp', 'exprs', 'rest'])
    pre = rng.choice(['', '', '', '!', '*', '*2m*', '!*'])
    if k.startswith('expr'):
        pre = pre.replace('!', '')      # a silent expression is text
    if '!' in pre and rng.random() < .2:
        # a name that does not exist is silently skipped
        c = rng.choice(['nope', 'x.nope', 'nope.p', 'f(1).nope', 'y[0].nope'])
        return '$' + pre + '{' + c + '}', \
            "(L('f')(1), None)[1]" if c.startswith('f(') else 'None'
    if rng.random() < .15:
        (c, p) = g.expr(d)
        if '\n' not in c and ':' not in c and '#' not in c:
            return '#echo %s#' % c, p
    if k == 'plain':
        c, p = g.var(d)
        return '$' + pre + c + rng.choice([' ', '|', ';', '\n', '-', ',']), p
    o, c_ = {'brace': '{}', 'paren': '()', 'square': '[]', 'exprb': '{}',
             'exprp': '()', 'exprs': '[]', 'rest': '{}'}[k]
    w = rng.choice(['', '', ' '])
    if k in ('brace', 'paren', 'square'):
        c, p = g.var(d)
        return '$' + pre + o + w + c + w + c_, p
    if k == 'rest':
        c, p = g.var(d)
        op = rng.choice(BIN)
        c2, p2 = g.expr(d)
        # the first operand is a name looked up
        return '$' + pre + '{' + c + ' ' + op + ' ' + c2 + '}', \
            '%s %s %s' % (p, op, p2)
    (c, p), op, (c2, p2) = g.expr(d), rng.choice(BIN), g.expr(d)
    n = rng.choice(NAMES)
    if c[0].isalpha():       # would be a name looked up
        c, p = '1', '1'
    return '$' + pre + o + w + c + ' ' + op + ' $' + n + w + c_, \
        '%s %s L(%r)' % (p, op, n)


class Ns(dict):
    pass


def names():
    ns = {n: V(n) for n in NAMES}
    ns.update({n: F(n) for n in FUNCS})
    return ns


def flt():
    lib = types.ModuleType('exprfilters')

    class Mark(Filters.Filter):
        def filter(self, val, **kw):
            return '<%s>' % (val,)
    lib.Mark = Mark
    return lib


def pyeval(py, extra=None):
    ns = names()
    env = {'L': lambda n: (extra or {}).get(n, ns.get(n))}
    env.update(extra or {})
    return eval(py.replace('\\\n', ' ').replace('\r', ' ').replace('\n', ' '), env)


def check(case):
    if case['kind'] == 'def':
        return defaults(case)
    k = case['kind']
    src = case['src']
    LOG[:] = []
    want, wlog = '', []
    try:
        if k == 'ph':
            for text, py in case['parts']:
                if py is None:
                    want += text
                else:
                    v = pyeval(py)
                    want += '' if v is None else '<%s>' % (v,)
        else:
            want = assign(case)
        wlog = list(LOG)
    except Exception as e:
        want = type(e)
    LOG[:] = []
    try:
        t = T.compile(src, useCache=False, cacheCompilationResults=False,
                      compilerSettings={'useAutocalling': case['ac'],
                                        'useStackFrames': case['frames']})(
            searchList=[names()], filter='Mark', filtersLib=flt())
    except Exception as e:
        return '%r does not compile: %s: %s' % (src, type(e).__name__,
                                                str(e)[-300:])
    try:
        got = t.respond()
        glog = list(LOG)
    except Exception as e:
        if isinstance(want, type):
            return None if type(e) is want else \
                '%r raised %s, not %s' % (src, type(e), want)
        return '%r raised %s: %s instead of rendering %r' % (
            src, type(e).__name__, e, want)
    if isinstance(want, type):
        return '%r rendered %r, Python raises %s' % (src, got, want)
    if got != want:
        return '%r rendered %r, not %r' % (src, got, want)
    if glog != wlog:
        return '%r made the calls %r, not %r' % (src, glog, wlog)
    return None


def assign(case):
    """run the steps in Python"""
    L, G = {}, {}
    ns = names()

    class Look(dict):
        pass

    def look(n):
        if n in L:
            return L[n]
        if n in G:
            return G[n]
        if n in M:
            return M[n]
        return ns[n]
    out = ''
    M = {}
    for st in case['steps']:
        env = {'L': look}
        if st[0] == 'show':
            out += '<%s>|' % (eval(st[1], env),)
        else:
            style, target, op, py = st[1:]
            d = {'local': L, 'global': G, 'module': M}[style]
            v = eval(py.replace('\\\n', ' ').replace('\r', ' ').replace('\n', ' '), env)
            env.update(L if style != 'module' else {})
            base = target.split('.')[0].split('[')[0]
            rest = target[len(base):]
            exec('D[%r]%s %s VAL' % (base, rest, op),
                 dict(env, D=d, VAL=v))
    return out


def constant(rng, d, brackets=False):
    """a Python expression of constants, as the default of an argument"""
    def sp(word):
        if brackets:
            return rng.choice([' ', ' ', '\n', '\t'])
        return rng.choice([' ', ' ', '\t', '\n'] if word else
                          ['', ' ', '\t'])
    r = rng.random()
    if d <= 0 or r < .2:
        return rng.choice(['0', '1', '2.5', '-3', 'True', 'None', "'a b'",
                           "','", "'='", "')'", '"it\'s"', 'len("abc")',
                           '[]', '()', '{}', "':'", "'a' 'b'"])
    if r < .5:
        o = rng.choice(['==', '!=', 'and', 'or', 'is', 'in'])
        w = o[0].isalpha()
        b = constant(rng, d - 1, brackets)
        if o == 'in':
            b = '[%s]' % constant(rng, d - 1, True)
        return '%s%s%s%s%s' % (constant(rng, d - 1, brackets), sp(w), o,
                               sp(w), b)
    if r < .6:
        return 'not%s%s' % (sp(True), constant(rng, 0, brackets))
    if r < .75:
        return '(%s)%sif%s%s%selse%s%s' % (
            constant(rng, d - 1, True), sp(True), sp(True),
            constant(rng, 0, brackets), sp(True), sp(True),
            constant(rng, 0, brackets))
    if r < .9:
        return '(%s,%s)' % (constant(rng, d - 1, True),
                            constant(rng, d - 1, True))
    return '{1%s:%s%s}[1]' % (sp(False), sp(False),
                              constant(rng, d - 1, True))


def defaults(case):
    names_ = ['a', 'b', 'c', 'd'][:len(case['args'])]
    src = '#def f(%s)\n%s\n#end def\n$f()' % (
        ('%s,%s' % (case['ws'], case['ws'])).join(
            '$%s%s=%s%s' % (n, case['ws'], case['ws'], e)
            for n, e in zip(names_, case['args'])),
        '|'.join('$repr($%s)' % n for n in names_))
    try:
        want = '|'.join(repr(eval(re.sub(r'\s+', ' ', e)))
                        for e in case['args']) + '\n'
    except Exception:
        return 'skip'
    try:
        got = T.compile(src, cacheCompilationResults=False)().respond()
    except Exception as e:
        return '%r: %s: %s' % (src, type(e).__name__, str(e)[-600:])
    if got != want:
        return '%r gives %r, expected %r' % (src, got, want)


def cases(rng, tier):
    n = 0
    for i in range(400 if tier == 'quick' else 4000):
        yield {'kind': 'def', 'ws': rng.choice(['', ' ', '\t', '\n', ' ']),
               'args': [constant(rng, rng.randint(0, 3))
                        for j in range(rng.randint(1, 3))]}
    while True:
        n += 1
        ac = rng.random() < .8
        g = Gen(rng, ac)
        if n % 3:
            parts = []
            src = ''
            for i in range(rng.randint(1, 3)):
                c, p = ph(g, rng, rng.randint(0, 3))
                tail = ''
                if c[0] == '$' and c[1:2] not in '{([' and not c.startswith(
                        ('$!{', '$!(', '$![', '$*{', '$*(', '$*[', '$!*{',
                         '$!*(', '$!*[', '$*2m*{', '$*2m*(', '$*2m*[')):
                    tail = c[-1]
                src += c
                parts.append([c, p])
                if tail:
                    parts.append([tail, None])
                src += 'T%d ' % i
                parts.append(['T%d ' % i, None])
            yield {'kind': 'ph', 'src': src, 'parts': parts, 'ac': ac,
                   'frames': rng.random() < .7}
        else:
            steps, src = [], ''
            g.nolambda = True
            known = {}
            for i in range(rng.randint(1, 5)):
                style = rng.choice(['local', 'local', 'global', 'global',
                                    'module'])
                mine = [v for v, s in known.items() if s == style]
                kw = {'local': rng.choice(['', 'local ']),
                      'global': 'global ', 'module': 'module '}[style]
                if style == 'module':
                    if steps and any(s[0] == 'set' and s[1] == 'module'
                                     for s in steps):
                        continue
                    t = rng.choice(['1', "'m'", '[1, 2]', "{'a': 1}"])
                    c, p, target, op = t, t, 'mv', '='
                    known['mv'] = 'module'
                elif mine and rng.random() < .6:
                    v = rng.choice(mine)
                    r = rng.random()
                    c, p = g.expr(2)
                    op = '='
                    if r < .25:
                        target = v + '.p'
                    elif r < .5:
                        target = v + rng.choice(["['k']", '[0]', "['a.b']",
                                                 "['a[b']"])
                    elif r < .7:
                        target = v + rng.choice(
                            ['.p.q', ".p['k']", '[0].p', ".p[1].q",
                             "['x.y'].p", "[0]['k']"])
                    else:
                        target, op = v, '+='
                else:
                    v = rng.choice(['lv', 'lw', 'x']) if style == 'local' \
                        else rng.choice(['gv', 'gw', 'y'])
                    c, p = '$obj', "L('obj')"
                    if rng.random() < .6:
                        n2 = rng.choice(NAMES)
                        if known.get(n2) is None:
                            c, p = '$' + n2, 'L(%r)' % n2
                    target, op = v, '='
                    if known.get(v, style) != style:
                        continue
                    known[v] = style
                sp = rng.choice([' ', ' ', ''])
                src += '#set %s$%s%s%s%s%s\n' % (kw, target, sp, op, sp,
                                                 c.replace('\\\n', ' ').replace('\r', ' ').replace('\n', ' '))
                steps.append(['set', style, target, op, p])
                for v in sorted(known):
                    if rng.random() < .4:
                        src += '${%s}|#slurp\n' % v
                        steps.append(['show', 'L(%r)' % v])
            if steps:
                yield {'kind': 'set', 'src': src, 'steps': steps, 'ac': ac,
                       'frames': rng.random() < .7}
