"""The compiled name mapper against the Python one, and its references: user
objects keep their reference counts over many lookups, and large names leave
no memory behind."""
import resource
import sys
import types

PURE = True
RULE = ('random object graphs and names of 1-14 components (existing, '
        'missing, raising) for every entry point and both autocall settings: '
        'value, error and calls of both implementations compared, reference '
        'counts of all objects before and after 24 lookups compared; odd '
        'objects (mappings that fail at the second access, item access '
        'without a mapping, exceptions with a find method) and names of '
        'thousands of characters for crashes and leaks only')
QUICK_S = 30
THOROUGH_S = 240
RISKY = True
N = 24
FUNCS = ['name', 'key', 'search', 'frame', 'framesearch']


def setup(scratch):
    global PY, C, g
    from explore import graph as g_
    g = g_
    import Cheetah.NameMapper as m
    assert not m.C_VERSION
    PY = m
    import Cheetah._namemapper as c
    C = c


class Flaky(dict):
    """a mapping whose every second access fails"""
    n = 0

    def __getitem__(self, k):
        self.n += 1
        if self.n % 2 == 0:
            raise self.exc('flaky')
        return dict.__getitem__(self, k)


class FlakySeq(object):
    n = 0

    def __init__(self, d, exc):
        self.d, self.exc = d, exc

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        self.n += 1
        if self.n % 2 == 0:
            raise self.exc('flaky')
        return self.d[k]


class OddRepr(object):
    def __repr__(self):
        raise ValueError('repr')
    __str__ = __repr__

    def __getattr__(self, n):
        if n == 'deep':
            raise RecursionError('deep')
        raise AttributeError(n)


class NotFoundWithFind(object):
    """raises a NotFound that looks like a string"""
    def __init__(self, r):
        class E(C.NotFound):
            def find(self, x):
                return r

            def __str__(self):
                return 'E'
        self.e = E

    def boom(self):
        raise self.e('boom')


def chain(n, leaf, kind):
    o = leaf
    for i in range(n):
        if kind == 'dict' or (kind == 'mix' and i % 2):
            o = {'c': o}
        elif kind == 'func' and i % 2:
            o = {'c': (lambda o: lambda: o)(o)}
        else:
            p = g.Plain('p')
            p.__dict__['c'] = o
            o = p
    return o


def cases(rng, tier):
    for kind in ('dict', 'inst', 'mix', 'func'):
        for n in list(range(1, 15)) + [15, 16, 17, 20, 40]:
            for ask in (n, n + 1):
                for ex in (True, False):
                    yield {'kind': 'chain', 'c': kind, 'n': n, 'ask': ask,
                           'f': rng.choice(FUNCS), 'ex': ex}
    for odd in ('flaky', 'flakyseq', 'repr', 'find3', 'find-1', 'finds',
                'deep', 'iter', 'callfail', 'nextfail'):
        for exc in ('KeyError', 'AttributeError', 'ValueError',
                    'KeyboardInterrupt', 'IndexError', 'TypeError'):
            for f in FUNCS:
                for name in ('c', 'c.c', 'c.c.c', 'zz', 'c.zz', 'boom',
                             'c.boom', 'deep', 'c.deep', 'c.c.deep'):
                    if rng.random() < .35:
                        yield {'kind': 'odd', 'odd': odd, 'exc': exc, 'f': f,
                               'name': name, 'ex': rng.random() < .7}
    for mask in range(1, 128):
        yield {'kind': 'diff', 'spaces': [{'t': 'dict', 'items': {'a': {
            't': 'callinst', 'items': {}, 'cls': rng.choice(
                ['K', 'function', 'method']),
            'sp': [k for i, k in enumerate(
                ['__func__', '__code__', '__self__', 'mro', '__name__',
                 '__wrapped__', '__class_getitem__']) if mask >> i & 1]}}}],
            'name': 'a', 'f': rng.choice(FUNCS), 'ex': True, 'sl': None}
    for f in FUNCS:
        for name in ('found', 'missing', 'dots', 'dots14', 'raise'):
            yield {'kind': 'rss', 'f': f, 'name': name}
    for nm in ('', '.', '..', 'a.', '.a', 'a..b', '\u00e9.x', 'a\x00b',
               '\ud800', 'a b', '\U0001f600' * 300, 'a' * 70000,
               '.'.join('a' * 14), '.'.join('ab' * 7), '.' * 13, '.' * 14,
               '.' * 15, '.' * 100):
        for f in FUNCS:
            yield {'kind': 'weird', 'name': nm, 'f': f}
    while True:
        nsp = rng.choice([1, 1, 2, 3])
        spaces = [g.rand_node(rng, rng.randint(1, 4)) for _ in range(nsp)]
        spaces = [s if s['t'] in ('dict', 'inst', 'dictsub', 'mapinst',
                                  'falsy', 'emptylooking', 'class',
                                  'callinst', 'prop')
                  else {'t': 'dict', 'items': {rng.choice(g.NAMES): s}}
                  for s in spaces]
        yield {'kind': 'diff', 'spaces': spaces,
               'name': '.'.join(g.rand_name(rng, rng.choice(spaces))),
               'f': rng.choice(FUNCS), 'ex': rng.random() < .7,
               'sl': rng.choice([None, None, 'tuple', 'lazy', 'fail0',
                                 'fail1', 'fail2'])}


def call(m, f, spaces, name, ex, sl=None):
    """one lookup through entry point f of implementation m"""
    if f == 'name':
        return m.valueForName(spaces[0], name, ex)
    if f == 'key':
        return m.valueForKey(spaces[0], name)
    if f == 'search':
        return m.valueFromSearchList(g.as_list(spaces, sl), name, ex)
    glob = {'__builtins__': __builtins__}
    src = 'def t(sl_, name_, ex_, m_%s):\n    return m_.%s' % (
        ''.join(', %s=None' % k for k in ()),
        'valueFromFrameOrSearchList(sl_, name_, ex_)' if f == 'framesearch'
        else 'valueFromFrame(name_, ex_)')
    if f == 'frame':
        d = spaces[0]
        if type(d) is dict:
            glob.update((k, v) for k, v in d.items() if k.isidentifier())
    exec(_code(src), glob)
    # t is taken out of its own globals: no reference cycle keeps objects alive
    return glob.pop('t')(g.as_list(spaces, sl), name, ex, m)


_codes = {}


def _code(src):
    if src not in _codes:
        _codes[src] = compile(src, 'frame', 'exec')
    return _codes[src]


def outcome(m, *a):
    try:
        return ('ok', call(m, *a))
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        if isinstance(e, SystemError):
            return ('system', str(e))
        if isinstance(e, (PY.NotFound, C.NotFound)) and \
                type(e).__name__ == 'NotFound':
            return ('missing', str(e).split(' while searching')[0])
        return ('exc', type(e).__name__, str(e)[:200])


def everything(o, seen, depth=0):
    """the objects of a graph"""
    if id(o) in seen or depth > 45 or isinstance(
            o, (str, int, float, bool, type(None), bytes)):
        return
    seen[id(o)] = o
    if isinstance(o, (list, tuple)):
        for x in o:
            everything(x, seen, depth + 1)
    if isinstance(o, dict):
        for x in list(o.values()):
            everything(x, seen, depth + 1)
    if isinstance(o, type):
        if o.__module__ in ('explore.graph', 'explore.C03'):
            for x in list(vars(o).values()):
                everything(x, seen, depth + 1)
        return
    if isinstance(o, types.FunctionType):
        for c in o.__closure__ or ():
            everything(c.cell_contents, seen, depth + 1)
    for x in list(getattr(o, '__dict__', {}).values()) \
            if not isinstance(o, OddRepr) else ():
        everything(x, seen, depth + 1)


def leaks(objs, f, reset=lambda: None):
    """objects whose reference count moves with every lookup"""
    f()
    reset()
    before = [sys.getrefcount(o) for o in objs]
    for _ in range(N):
        f()
        reset()
    after = [sys.getrefcount(o) for o in objs]
    for o, x, y in zip(objs, before, after):
        if abs(y - x) >= N - 2:
            try:
                r = repr(o)[:100]
            except Exception:
                r = type(o).__name__
            return 'reference count of %s moves by %d over %d lookups' % (
                r, y - x, N)


def check(case):
    kind = case['kind']
    f = case['f']
    if kind == 'diff':
        b = g.Builder()
        spaces = [b.build(s) for s in case['spaces']]
        name = case['name']
        first = name.split('.')[0]
        if f == 'key':
            name = first
        if f in ('frame', 'framesearch') and (
                hasattr({}, first) or first in ('sl_', 'name_')):
            return 'skip'
        a = (f, spaces, name, case['ex'], case['sl'])
        b.log.clear()
        p = outcome(PY, *a)
        pl = list(b.log)
        b.log.clear()
        c = outcome(C, *a)
        cl = list(b.log)
        b.log.clear()
        if p[0] != c[0] or p[0] != 'ok' and p != c:
            return '%s of %r: Python gives %r, C gives %r' % (
                f, name, show(p), show(c))
        if p[0] == 'ok' and p[1] is not c[1] and not (
                type(p[1]) is type(c[1]) and repr(p[1]) == repr(c[1])):
            return '%s of %r: Python gives %r, C gives %r' % (
                f, name, show(p), show(c))
        if pl != cl:
            return '%s of %r: Python calls %r, C calls %r' % (f, name, pl, cl)
        seen = {}
        for s in spaces:
            everything(s, seen)
        if p[0] == 'ok':
            everything(p[1], seen)
        objs = list(seen.values())
        del seen, p, c, pl, cl
        r = leaks(objs, lambda: outcome(C, *a) and None, b.log.clear)
        return r and '%s of %r: %s' % (f, name, r)
    if kind == 'chain':
        leaf = g.Plain('leaf')
        root = chain(case['n'], leaf, case['c'])
        root = root if f != 'frame' or type(root) is dict else {'c': root}
        name = '.'.join(['c'] * case['ask'])
        if f == 'key':
            name = 'c'
        a = (f, [root], name, case['ex'])
        c = outcome(C, *a)
        if c[0] == 'system':
            return 'C: %r' % (c,)
        if case['ask'] <= 14 or f == 'key':
            p = outcome(PY, *a)
            if p[0] != c[0] or (p[1] is not c[1] if p[0] == 'ok' else p != c):
                return '%s of %r: Python gives %r, C gives %r' % (
                    f, name, show(p), show(c))
            del p
        elif c[0] == 'ok':
            p = outcome(PY, *a)
            if p[0] != 'ok' or p[1] is not c[1]:
                return '%s of %r: Python gives %r, C gives %r' % (
                    f, name, show(p), show(c))
            del p
        seen = {}
        everything(root, seen)
        objs = list(seen.values())
        del seen, c
        r = leaks(objs, lambda: outcome(C, *a) and None)
        return r and '%s of %r: %s' % (f, name, r)
    if kind == 'odd':
        return odd(case)
    if kind == 'weird':
        root = {'a': {'a': {'b': 1}, 'b': 2, '': 3}, '\u00e9': {'x': 4}}
        a = (f, [root, {'zz': 1}], case['name'], True)
        c = outcome(C, *a)
        if c[0] == 'system':
            return 'C: %r' % (c,)
        nm = case['name']
        comps = nm.split('.')
        if all(comps) and len(comps) <= 14 and '\x00' not in nm and \
                '\ud800' not in nm and not (
                    f in ('frame', 'framesearch') and hasattr({}, comps[0])):
            p = outcome(PY, *a)
            if p[0] != c[0] or p[0] == 'ok' and p[1] != c[1]:
                return '%s of %r: Python gives %r, C gives %r' % (
                    f, nm[:80], show(p), show(c))
        objs = [root, root['a'], root['a']['a']]
        r = leaks(objs, lambda: outcome(C, *a) and None)
        return r and '%s of %r: %s' % (f, nm[:60], r)
    if kind == 'rss':
        big = 'n' * 1000000

        def boom():
            raise ValueError('boom')
        name = {'found': big, 'missing': big + 'x',
                'dots': '.'.join([big] * 2 + ['y'] * 20),
                'dots14': '.'.join([big] * 2 + ['y'] * 5),
                'raise': 'boom.' + big}[case['name']]
        root = {big: 1, 'boom': boom}

        def f1():
            outcome(C, f, [root], name, True)
        for _ in range(3):
            f1()
        b = rss()
        for _ in range(60):
            f1()
        d = rss() - b
        if d > 30000:
            return ('%s of a name of %d characters (%s): memory grows by '
                    '%d kB over 60 lookups' % (f, len(name), case['name'], d))
        return None


def rss():
    with open('/proc/self/statm') as fp:
        return int(fp.read().split()[1]) * resource.getpagesize() // 1024


def odd(case):
    f = case['f']
    exc = getattr(__import__('builtins'), case['exc'])
    o = case['odd']
    leaf = g.Plain('leaf')
    leaf.__dict__['c'] = leaf2 = g.Plain('leaf2')
    sl = None
    tracked = [leaf, leaf2]
    if o == 'flaky':
        root = Flaky(c=leaf)
        root.exc = exc
        root = {'c': root, 'boom': root}
    elif o == 'flakyseq':
        root = FlakySeq({'c': leaf, 'boom': leaf}, exc)
        root = {'c': root, 'boom': root}
    elif o in ('repr', 'deep'):
        r = OddRepr()
        root = {'c': {'c': r, 'deep': r}, 'boom': r, 'deep': r}
    elif o.startswith('find'):
        n = NotFoundWithFind({'find3': 3, 'find-1': -1,
                              'finds': 'x'}[o])
        root = {'boom': n.boom, 'c': n}
        tracked += [n, n.e]
    elif o == 'iter':
        root = {'c': leaf}
        sl = 'fail1'
    elif o in ('callfail', 'nextfail'):
        def boom():
            raise exc('called')
        x = {'boom': boom, 'c': {'c': boom, 'boom': boom}}
        if o == 'nextfail':
            class P(g.Plain):
                @property
                def c(self):
                    raise exc('prop')
            x = {'boom': P('p'), 'c': {'c': P('q'), 'boom': P('r')}}
        root = x
        seen = {}
        everything(root, seen)
        tracked += list(seen.values())
    spaces = [{}, root] if f in ('search', 'framesearch') else [root]
    if o == 'iter':
        spaces = [{}, {}, root]
    name = case['name'] if f != 'key' else case['name'].split('.')[0]
    tracked += [root] + spaces
    a = (f, spaces, name, case['ex'], sl)
    c = outcome(C, *a)
    if c[0] == 'system':
        return '%s of %r on %s objects: %r' % (f, name, o, c)
    del c
    r = leaks(tracked, lambda: outcome(C, *a) and None)
    return r and '%s of %r on %s objects (%s): %s' % (f, name, o,
                                                      case['exc'], r)


def show(o):
    return tuple(repr(x)[:120] for x in o)
