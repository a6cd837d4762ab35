"""run-time contract: the compilation cache is transparent"""
import copy
import gc
import os
import re
import shutil
import sys

PURE = None
RULE = ('sequences of compilations with caching on, neighbouring ones '
        'differing in one option (source, names, base class, main method, '
        'settings, module globals, compiler class, file and its time, '
        'preprocessor, class defaults); every class is compared with one '
        'compiled afresh: generated code, class and module names, bases, '
        'module globals by identity, rendered output, errors')
QUICK_S = 60
THOROUGH_S = 300

SRC = ['$x', '$x ', '', ' ', 'a', 'b', '$g', '#def m\nM$x\n#end def\n$m()',
       '#set $y = 1\n$y', '@x', '%set @y = 2\n@y', '#encoding utf-8\n\xe9$x',
       '\xe9', '$x.upper', '#attr $q = 1\n$q', '#extends B\n$x',
       '#implements foo\n$x', '$bad(', '#if 1', '#import nosuchmodule_\n',
       'None', '1', 'A', 'AB', '#extends Object\nz', '$g $x $h', '-1', '-2',
       '#encoding latin-1\n\xe9$x']
NAMES = [None, 'A', 'AB', 'B', 'BC', 'C', 'ABC', 'None', '_A', '__A', 'm1',
         'A1', 'T']
MAIN = [None, 'respond', 'foo', 'main', 'A', 'B']
GLOB = [None, {}, {'g': 1}, {'g': True}, {'g': 1.0}, {'g': '1'}, {'g': -1},
        {'g': -2}, {'g': 0.0}, {'g': -0.0}, {'g': None}, {'g': 'None'},
        {'g': [1]}, {'g': [True]}, {'g': (1,)}, {'g': {'a': 1}},
        {'g': {'a': True}}, {'h': 1}, {'g': 1, 'h': 2}, {'h': 2, 'g': 1},
        {'g': {1}}, {'g': b'1'}, {'g': 'OBJ'}, {'g': 'OBJ2'}, {'g': 'EQ'},
        {'g': 'EQ2'}, {'g': 'S'}, {'g': [[1]]}, {'g': [[True]]}]
SETS = [None, {}, {'useFilters': False}, {'useFilters': 0},
        {'useNameMapper': False}, {'useAutocalling': False},
        {'cheetahVarStartToken': '@'}, {'directiveStartToken': '%'},
        {'cheetahVarStartToken': '@', 'directiveStartToken': '%'},
        {'disabledDirectives': ['set']}, {'disabledDirectives': ['def']},
        {'disabledDirectives': ['set', 'def']}, {'mainMethodName': 'zed'},
        {'alwaysFilterNone': False}, {'commentOffset': 1},
        {'commentOffset': True}, {'macroDirectives': 'MAC1'},
        {'macroDirectives': 'MAC2'}, {'useFilters': False,
                                      'useAutocalling': False},
        {'a': {'b': 1}}, {'a': {'b': True}}, {'mainMethodName': 'foo'}]
BASES = [None, 'object', 'Base1', 'Base2', 'Base1b', 'tmp', 'name:B1',
         'name:Object']
COMP = [None, 'C1', 'C2']
APIS = [None, 'sub', 'subset', 'subglob', 'subname']


class Obj(object):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'obj%s' % self.n


class Eq(Obj):
    def __eq__(self, o):
        return isinstance(o, Eq)

    def __hash__(self):
        return 7


class S(str):
    def __str__(self):
        return 'sub'


def setup(scratch):
    global T, C, B1, B1b, B2, COMPS, WORK, NAMED, mk
    from Cheetah.Template import Template as T_
    from Cheetah.Compiler import Compiler as C_
    T, C = T_, C_
    WORK = os.path.join(scratch, 'work', 'c12')

    def mk(name, val):
        return type(name, (T,), {'x2': val, 'zed0': lambda self: val,
                                 '__module__': 'c12bases'})
    B1, B1b, B2 = mk('Base', 1), mk('Base', 2), mk('Base2', 3)

    class C1(C):
        def getModuleCode(self):
            return C.getModuleCode(self) + '\nCOMP = 1\n'

    class C2(C):
        def getModuleCode(self):
            return C.getModuleCode(self) + '\nCOMP = 2\n'
    COMPS = {'C1': C1, 'C2': C2}
    NAMED = {'OBJ': Obj(1), 'OBJ2': Obj(2), 'EQ': Eq(1), 'EQ2': Eq(2),
             'S': S('1'),
             'MAC1': {'mac': lambda src, parser: 'one'},
             'MAC2': {'mac': lambda src, parser: 'two'}}


def ropts(rng):
    return {'src': rng.randrange(len(SRC)),
            'cls': rng.choice(NAMES) if rng.random() < .5 else None,
            'mod': rng.choice(NAMES) if rng.random() < .5 else None,
            'main': rng.choice(MAIN) if rng.random() < .3 else None,
            'glob': rng.randrange(len(GLOB)) if rng.random() < .5 else 0,
            'set': rng.randrange(len(SETS)) if rng.random() < .5 else 0,
            'base': rng.choice(BASES) if rng.random() < .3 else None,
            'comp': rng.choice(COMP) if rng.random() < .2 else None,
            'api': rng.choice(APIS) if rng.random() < .2 else None,
            'file': rng.random() < .2, 'mtime': rng.choice([1e9, 1e9 + 1]),
            'dir': rng.choice(['', 'd1', 'd2']),
            'pre': rng.random() < .1, 'code': rng.random() < .2}


def change(rng, o):
    n = dict(o)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.choice(sorted(n))
        m = ropts(rng)
        n[k] = m[k]
        if k in ('cls', 'mod'):
            n['cls'], n['mod'] = rng.choice(NAMES), rng.choice(NAMES)
        if k == 'glob':
            n[k] = rng.randrange(len(GLOB))
        if k == 'set':
            n[k] = rng.randrange(len(SETS))
        if k == 'base':
            n[k] = rng.choice(BASES)
    return n


def cases(rng, tier):
    base = ropts(rng)
    base.update(src=6, cls=None, mod=None, main=None, set=0, base=None,
                comp=None, api=None, file=False, pre=False, code=False)
    for i in (0, 12, 20):
        yield {'kind': 'globals', 'steps': [
            dict(base, glob=j) for j in [i] + rng.sample(range(len(GLOB)), len(GLOB))]}
    for a in rng.sample(NAMES, 4):
        for b in rng.sample(NAMES[1:], 3):
            yield {'kind': 'names', 'steps': [
                dict(base, glob=2, cls=b, mod=a, main=m)
                for m in MAIN] + [dict(base, glob=2, cls=c, mod=d)
                                  for c, d in (('A', 'BC'), ('AB', 'C'),
                                               ('ABC', None), ('BC', 'A'))]}
    for s in (0, 7, 8, 9, 10):
        yield {'kind': 'settings', 'steps': [
            dict(base, src=s, set=j) for j in rng.sample(range(len(SETS)), len(SETS))]}
    yield {'kind': 'sources', 'steps': [dict(base, src=j)
                                        for j in range(len(SRC))] * 2}
    yield {'kind': 'code', 'steps': [dict(base, src=j, code=b)
                                     for j in range(len(SRC))
                                     for b in (False, True)]}
    while True:
        o = ropts(rng)
        st = [o]
        for _ in range(rng.choice([1, 2, 4, 8])):
            st.append(change(rng, rng.choice(st)))
        yield {'kind': rng.choice(['seq', 'seq', 'mutate']), 'steps': st}


def named(v):
    if isinstance(v, dict):
        return {k: NAMED[x] if isinstance(x, str) and x in NAMED else x
                for k, x in v.items()}
    return v


def kwargs(o, tmp):
    kw = {}
    if o['cls'] is not None:
        kw['className'] = o['cls']
    if o['mod'] is not None:
        kw['moduleName'] = o['mod']
    if o['main'] is not None:
        kw['mainMethodName'] = o['main']
    g = GLOB[o['glob']]
    if g is not None:
        kw['moduleGlobals'] = named(copy.deepcopy(g))
    s = SETS[o['set']]
    if s is not None:
        kw['compilerSettings'] = named(copy.deepcopy(s))
    b = o['base']
    if b:
        kw['baseclass'] = {'object': None, 'Base1': B1, 'Base1b': B1b,
                           'Base2': B2}.get(b, b)
        if b == 'tmp':
            kw['baseclass'] = tmp.setdefault('base', mk('Tmp', tmp['n']))
        if b.startswith('name:'):
            kw['baseclass'] = b[5:]
    if o['comp']:
        kw['compilerClass'] = COMPS[o['comp']]
    if o['file']:
        d = os.path.join(WORK, o['dir'])
        os.makedirs(d, exist_ok=True)
        fn = 'f%s.tmpl' % ('' if o['mtime'] < 1e9 + 1 else '')
        with open(os.path.join(d, fn), 'w', encoding='utf-8') as f:
            f.write(SRC[o['src']])
        # the time stands for the content, as on any file system (the
        # mtime options differ by a second, the contents by less)
        t = o['mtime'] + o['src'] / 64.
        os.utime(os.path.join(d, fn), (t, t))
        os.chdir(d)
        kw['file'] = fn
    else:
        kw['source'] = SRC[o['src']]
        if o['pre']:
            kw['preprocessors'] = [lambda source, file: (
                source.replace('x', 'x#*pre*#'), file)]
    return kw


def api(o):
    a = o['api']
    if a is None:
        return T
    return {'sub': SUB, 'subset': SUBSET, 'subglob': SUBGLOB,
            'subname': SUBNAME}[a]


def norm(code):
    code = re.sub(r'(?m)^__CHEETAH_(genTime|genTimestamp|srcLastModified)'
                  r'__.*$', '', code)
    code = re.sub(r"# (Mon|Tue|Wed|Thu|Fri|Sat|Sun) .*", '', code)
    return re.sub(r'_\d{6,}(_\d+)*', '_N', code)


def describe(cls, kw, o):
    m = sys.modules[cls.__module__]
    d = {'name': cls.__name__, 'bases': cls.__mro__[1:],
         'mod': re.sub(r'^cheetah_(.*)_\d+_\d+_\d+$', r'\1', m.__name__),
         'comp': getattr(m, 'COMP', None),
         'main': cls._mainMethodNameForSubclasses if hasattr(
             cls, '_mainMethodNameForSubclasses') else None,
         'attrs': sorted(k for k in vars(cls) if not k.startswith('_')),
         'src': getattr(m, '__CHEETAH_src__', None),
         'code': norm(getattr(cls, '_CHEETAH_generatedModuleCode', '') or '')}
    g = kw.get('moduleGlobals') or {}
    for k, v in g.items():
        x = getattr(m, k, None)
        d['glob ' + k] = (type(x), repr(x), id(x) if not isinstance(
            v, (int, float, str, bytes, type(None))) or isinstance(v, S)
            else None)
    for n in ('g', 'h'):
        if n not in g:
            d['glob ' + n] = hasattr(m, n)
    for meth in ('respond', 'foo', 'main', 'zed', 'A', 'B'):
        if meth in vars(cls):
            try:
                t = cls(searchList=[{'x': 'v'}])
                d['out ' + meth] = getattr(t, meth)()
            except Exception as e:
                d['out ' + meth] = type(e).__name__
    return d


def comp(K, kw, o, **more):
    kw = dict(kw)
    try:
        if o['code']:
            r = K.compile(returnAClass=False, **dict(kw, **more))
            if isinstance(r, bytes):
                r = r.decode('utf-8', 'backslashreplace')
            return {'text': norm(r)}
        return describe(K.compile(**dict(kw, **more)), kw, o)
    except Exception as e:
        return {'error': type(e).__name__}


def check(case):
    global SUB, SUBSET, SUBGLOB, SUBNAME
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    SUB = type('K', (T,), {})
    SUBSET = type('K', (T,), {'_CHEETAH_compilerSettings':
                              {'cheetahVarStartToken': '@'}})
    SUBGLOB = type('K', (T,), {'_CHEETAH_defaultModuleGlobalsForTemplates':
                               {'g': 'sg'}})
    SUBNAME = type('K', (T,), {'_CHEETAH_defaultClassNameForTemplates':
                               'Dflt'})
    before = set(sys.modules)
    keep = []
    tmp = {'n': 0}
    try:
        for n, o in enumerate(case['steps']):
            tmp['n'] = n
            K = api(o)
            kw = kwargs(o, tmp)
            if case['kind'] == 'mutate' and n % 2 == 0 and \
                    'compilerSettings' in kw:
                # the caller goes on using (and changing) its dictionary
                comp(K, kw, o)
                kw['compilerSettings']['useFilters'] = False
                kw['compilerSettings'].setdefault(
                    'disabledDirectives', []).append('attr')
            fresh = comp(K, kw, o, useCache=False,
                         cacheCompilationResults=False)
            for again in range(2):
                got = comp(K, kw, o)
                if got != fresh:
                    bad = [k for k in set(got) | set(fresh)
                           if got.get(k) != fresh.get(k)]
                    k = sorted(bad)[0]
                    return 'step %d (compile number %d) differs from a ' \
                        'fresh compilation in %s: %s instead of %s' % (
                            n, again, bad, str(got.get(k))[-200:],
                            str(fresh.get(k))[-200:])
            if n % 3 == 2:
                tmp.pop('base', None)
                gc.collect()
        return None
    finally:
        os.chdir(os.path.dirname(WORK))
        T._CHEETAH_compileCache.clear()
        for m in set(sys.modules) - before:
            if 'Cheetah' not in m:
                del sys.modules[m]
        shutil.rmtree(WORK, ignore_errors=True)
