"""run-time contract: a failed compilation leaves no trace"""
import os
import re
import shutil
import sys
import threading

PURE = None
RULE = ('failing compilations (syntax errors, wrong options, missing files, '
        'errors in generated code, failing preprocessors, compilers and base '
        'classes, an exception injected at the n-th call inside compiler or '
        'parser) through every entry point; afterwards module table, '
        'compilation cache, lock and class defaults are as before, and '
        'later compilations give what they gave before')
QUICK_S = 30
THOROUGH_S = 240
CASE_S = 30

BADSRC = ['#if 1', '$x #end if', '${x', '$f(', '#set', '#for x',
          '#def', '#def m(\n', '#attr $x = \n', '#if )\n#end'
          ' if', '#set $x = (\n', '$x[', '#silent 1 +\n', '#else', '#end def',
          '#set $x = 1 +\n', '#for $i in\nx\n#end for', '#call', '<% x',
          '#block b\n', '#compiler-settings\nx\n', '#filter\n',
          '#compiler-settings python\n1/0\n#end compiler-settings\n',
          '#compiler useNameMapper = 1/0\n', '#set $class = 1\n',
          '#def 1x\ny\n#end def\n', '#attr $def = 2\n',
          '#compiler-settings\ncheetahVarStartToken = @\n'
          '#end compiler-settings\n@x(', '#compiler disabledDirectives = '
          '["set"]\n#set $x = 1\n']
BADRUN = ['#attr $x = 1/0\nt', '#import nosuchmodule_c16\nt',
          '#extends nosuchmodule_c16\nt', '#from os import nosuchname_c16\nt',
          '#attr $x = undefined_c16\nt', '#attr $x = [][0]\nt',
          '#attr $y = (lambda: 1/0)()\nt', '#attr $z = int("q")\nt',
          '#extends os\nt']
GOOD = ['$x', 'plain', '#def m\nM\n#end def\n$m', '#set $y = 2\n$y$x', '@x $x',
        '#attr $q = 5\n$q']
HOWS = ['compile', 'init', 'sub', 'subclass', 'thread', 'file', 'code',
        'nocache', 'fileobj']


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def setup(scratch):
    global T, C, WORK, BASE, LOCKS
    from Cheetah.Template import Template as T_
    from Cheetah.Compiler import Compiler as C_
    import Cheetah.Template as TM
    T, C = T_, C_
    WORK = os.path.join(scratch, 'work', 'c16')
    os.makedirs(WORK, exist_ok=True)
    for b in BADSRC + BADRUN:
        try:
            T.compile(source=b, cacheCompilationResults=False,
                      useCache=False)
        except Exception:
            pass
    BASE = {}
    for i, g in enumerate(GOOD):
        BASE[i] = result(g, 'base')


def result(src, name, **kw):
    try:
        k = T.compile(source=src, moduleName=name, className=name,
                      cacheCompilationResults=False, useCache=False, **kw)
        return (k.__name__, k.__mro__[1:], str(k(searchList=[{'x': 'X'}])),
                norm(k._CHEETAH_generatedModuleCode))
    except Exception as e:
        return type(e).__name__


def norm(code):
    code = re.sub(r'(?m)^__CHEETAH_(genTime|genTimestamp)__.*$', '', code)
    code = re.sub(r"# (Mon|Tue|Wed|Thu|Fri|Sat|Sun) .*", '', code)
    return re.sub(r'_\d{6,}(_\d+)*', '_N', code)


def cases(rng, tier):
    for h in HOWS:
        for i in range(len(BADSRC)):
            yield {'kind': 'syntax', 'how': h, 'i': i,
                   'name': 'nm' if i % 2 else None}
        for i in range(len(BADRUN)):
            yield {'kind': 'runtime', 'how': h, 'i': i,
                   'name': 'nm' if i % 2 else None}
    for h in ('compile', 'init', 'sub', 'thread', 'nocache'):
        for w in ('init', 'compile', 'code', 'pre', 'base', 'globals',
                  'metadir', 'class', 'meta', 'prop', 'basemod', 'halt',
                  'gsetattr', 'halt2'):
            yield {'kind': 'fault', 'how': h, 'what': w}
    for o in range(14):
        for h in ('compile', 'sub', 'init'):
            yield {'kind': 'option', 'how': h, 'i': o}
    while True:
        k = rng.choice(['inject', 'inject', 'retry', 'missing', 'mixed',
                        'mixed'])
        yield {'kind': k, 'i': rng.randrange(100), 'n': rng.choice(
            [1, 3, 10, 30, 100, 300]) + rng.randrange(40),
            'how': rng.choice(HOWS), 'cache': rng.random() < .7,
            'halt': rng.random() < .2, 'name': rng.choice(
                [None, 'nm', 'os', 'nm2']),
            'seq': [rng.randrange(len(BADSRC) + len(BADRUN) + len(GOOD))
                    for _ in range(6)]}


DEFAULTS = ('_CHEETAH_compilerSettings', '_CHEETAH_compilerClass',
            '_CHEETAH_cacheCompilationResults',
            '_CHEETAH_useCompilationCache', '_CHEETAH_keepRefToGeneratedCode',
            '_CHEETAH_preprocessors', '_CHEETAH_compilerInstance')


def state(K):
    import Cheetah.Compiler as CM
    import Cheetah.Parser as PM
    d = {}
    for c in (T, K):
        for k, v in vars(c).items():
            if k in ('_CHEETAH_compileCache', '__doc__'):
                continue
            d[c.__name__, k] = (id(v), repr(v) if isinstance(
                v, (dict, list, tuple, str, int)) else None)
    d['modules'] = sorted(m for m in sys.modules)
    d['cache'] = sorted(map(str, T._CHEETAH_compileCache))
    d['items'] = sorted(id(v) for v in T._CHEETAH_compileCache.values())
    for m, n in ((CM, 'DEFAULT_COMPILER_SETTINGS'),
                 (PM, 'directiveNamesAndParsers'),
                 (PM, 'endDirectiveNamesAndHandlers')):
        d[n] = repr(getattr(m, n, None))
    d['path'] = list(sys.path)
    d['cwd'] = os.getcwd()
    d['hooks'] = list(sys.meta_path)
    return d


def held():
    """is any lock of the class held now?"""
    for k, v in list(vars(T).items()):
        if hasattr(v, 'acquire') and hasattr(v, 'release'):
            r = []

            def probe():
                if v.acquire(False):
                    v.release()
                    r.append(1)
            t = threading.Thread(target=probe)
            t.start()
            t.join()
            if not r:
                return k
    return None


def run(how, K, src, kw):
    """-> exception or None"""
    kw = dict(kw)
    try:
        if how in ('file', 'fileobj'):
            fn = os.path.join(WORK, 'f.tmpl')
            with open(fn, 'w') as f:
                f.write(src)
            kw.pop('source', None)
            if how == 'file':
                K.compile(file=fn, **kw)
            else:
                with open(fn) as f:
                    K.compile(file=f, **kw)
        elif how == 'init':
            kw.pop('moduleName', 0), kw.pop('className', 0)
            K(src, **{k: v for k, v in kw.items() if k in (
                'compilerSettings', 'preprocessors', 'moduleGlobals',
                'compilerClass', 'baseclass')} if False else
              {k: v for k, v in kw.items() if k == 'compilerSettings'})
        elif how == 'sub':
            type('KK', (K,), {}).compile(source=src, **kw)
        elif how == 'subclass':
            K.subclass(source=src, **kw)
        elif how == 'code':
            K.compile(source=src, returnAClass=False, **kw)
        elif how == 'nocache':
            K.compile(source=src, useCache=False,
                      cacheCompilationResults=False, **kw)
        elif how == 'thread':
            r = []

            def go():
                try:
                    K.compile(source=src, **kw)
                except BaseException as e:
                    r.append(e)
            t = threading.Thread(target=go)
            t.start()
            t.join(20)
            if t.is_alive():
                return 'hangs'
            return r[0] if r else None
        else:
            K.compile(source=src, **kw)
    except (Exception, Halt) as e:
        return e
    return None


def same(a, b, where):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], list):
                x = [v for v in b[k] if v not in a[k]]
                y = [v for v in a[k] if v not in b[k]]
                return '%s: %s changed: new %r, gone %r' % (where, k, x, y)
            return '%s: %s changed' % (where, k)
    for k in b:
        if k not in a:
            return '%s: %s is new' % (where, k)
    l = held()
    if l:
        return '%s: lock %s is still held' % (where, l)
    return None


def after(case):
    """compilations afterwards behave as before"""
    i = case.get('i', 0) % len(GOOD)
    r = [None]
    t = threading.Thread(target=lambda: r.__setitem__(
        0, result(GOOD[i], 'base')))
    t.start()
    t.join(20)
    if t.is_alive():
        return 'a later compilation hangs'
    if r[0] != BASE[i]:
        return 'a later compilation of %r gives %r instead of %r' % (
            GOOD[i], r[0], BASE[i])
    return None


def check(case):
    before = set(sys.modules)
    os.makedirs(WORK, exist_ok=True)
    try:
        return check1(case)
    finally:
        sys.setprofile(None)
        T._CHEETAH_compileCache.clear()
        for m in set(sys.modules) - before:
            if 'Cheetah' not in m:
                del sys.modules[m]


def fails(case, how, src, kw, must=True):
    a = state(T)
    e = run(how, T, src, kw)
    if e is None:
        return 'skip' if not must else \
            'compiling %r with %r does not fail' % (src, kw)
    if e == 'hangs':
        return 'hangs'
    return same(a, state(T), '%s of %r (%s)' % (how, src, type(e).__name__))


def kwname(case):
    n = case.get('name')
    return {'moduleName': n, 'className': n} if n else {}


def check1(case):
    k = case['kind']
    if k == 'syntax':
        src = BADSRC[case['i']]
        r = fails(case, case['how'], src, kwname(case),
                  must=case['how'] != 'code')
        if r == 'skip':
            return r
        return r or twice(case, src) or after(case)
    if k == 'runtime':
        if case['how'] == 'code':
            return 'skip'
        src = BADRUN[case['i']]
        return fails(case, case['how'], src, kwname(case)) or \
            twice(case, src) or after(case)
    return globals()['check_' + k](case)


def twice(case, src):
    """the same source fails again, in the same way"""
    kw = kwname(case)
    e1, e2 = (run(case['how'], T, src, kw) for _ in range(2))
    if type(e1) is not type(e2):
        return 'another attempt at %r ends with %r instead of %r' % (
            src, e2, e1)
    return None


def check_fault(case):
    w = case['what']
    kw = {'moduleName': 'flt', 'className': 'flt'}
    src = '$x'
    if w in ('init', 'compile', 'code'):
        meth = {'init': '__init__', 'compile': 'compile',
                'code': 'getModuleCode'}[w]

        def boom(self, *a, **k):
            raise Boom()
        kw['compilerClass'] = type('CC', (C,), {meth: boom})
    elif w == 'pre':
        def p(source, file):
            raise Boom()
        kw['preprocessors'] = [p]
    elif w in ('base', 'meta'):
        class M(type):
            def __new__(mc, name, bases, d):
                if name == 'flt':
                    raise Boom()
                return type.__new__(mc, name, bases, d)
        kw['baseclass'] = M('Bs', (T,), {})
    elif w == 'globals':
        kw['moduleGlobals'] = {1: 2}
    elif w == 'gsetattr':
        class G(dict):
            def items(self):
                yield 'a', 1
                raise Boom()
        kw['moduleGlobals'] = G(a=1)
    elif w == 'metadir':
        kw.update(cacheModuleFilesForTracebacks=True,
                  cacheDirForModuleFiles='/nonexistent/c16')
    elif w == 'class':
        kw['className'] = 'not a name'
    elif w == 'basemod':
        kw['baseclass'] = 'nosuch.module_c16'
    elif w in ('halt', 'halt2'):
        def hook(*a, **k):
            raise Halt()
        if w == 'halt':
            kw['compilerSettings'] = {'expressionFilterHooks': [hook]}
        else:
            kw['moduleGlobals'] = {'hook': hook}
            src = '#attr $q = hook()\nz'
    elif w == 'prop':
        class N(object):
            def __call__(self):
                raise Boom()
        kw['moduleGlobals'] = {'boom': N()}
        src = '#attr $q = boom()\nz'
    if case['how'] == 'init':
        if w not in ('halt',):
            return 'skip'
        kw = {'compilerSettings': kw['compilerSettings']}
    return fails(case, case['how'], src, kw) or after(case)


def check_option(case):
    bad = [{'source': 1}, {'file': 2, 'source': None}, {'baseclass': 3},
           {'cacheCompilationResults': 'x'}, {'useCache': 'y'},
           {'compilerSettings': 5}, {'moduleName': 6}, {'className': 7},
           {'mainMethodName': 8}, {'cacheModuleFilesForTracebacks': 'z'},
           {'cacheDirForModuleFiles': 9}, {'keepRefToGeneratedCode': 'q'},
           {'compilerClass': 10}, {'preprocessors': 11}][case['i']]
    kw = {'source': '$x'}
    kw.update(bad)
    a = state(T)
    K = T if case['how'] != 'sub' else type('KK', (T,), {})
    try:
        if case['how'] == 'init':
            if set(bad) - {'source', 'file', 'compilerSettings'}:
                return 'skip'
            T(**kw)
        else:
            K.compile(**kw)
        return 'bad option %r accepted' % bad
    except Exception:
        pass
    return same(a, state(T), 'option %r' % bad) or after(case)


def check_missing(case):
    fn = os.path.join(WORK, 'late%d.tmpl' % case['i'])
    if os.path.exists(fn):
        os.remove(fn)
    a = state(T)
    try:
        if case['how'] == 'init':
            T(file=fn)
        else:
            T.compile(file=fn, **kwname(case))
        return 'a missing file compiles'
    except Exception:
        pass
    r = same(a, state(T), 'missing file')
    if r:
        return r
    with open(fn, 'w') as f:
        f.write('now $x')
    k = T.compile(file=fn, **kwname(case))
    o = str(k(searchList=[{'x': 1}]))
    os.remove(fn)
    if o != 'now 1':
        return 'file that was missing renders %r' % o
    return after(case)


def check_inject(case):
    """raise at the n-th call of a function of the compiler or parser"""
    src = GOOD[case['i'] % len(GOOD)]
    kw = dict(kwname(case))
    a = state(T)
    cnt = [0]
    X = Halt if case['halt'] else Boom

    def prof(frame, ev, arg):
        if ev == 'call':
            f = frame.f_code.co_filename
            if f.endswith(('Compiler.py', 'Parser.py', 'SourceReader.py',
                           'SettingsManager.py')):
                cnt[0] += 1
                if cnt[0] == case['n']:
                    sys.setprofile(None)
                    raise X()
    sys.setprofile(prof)
    err = None
    try:
        if case['cache']:
            T.compile(source=src, **kw)
        else:
            T.compile(source=src, cacheCompilationResults=False, **kw)
    except (Exception, Halt) as e:
        err = e
    finally:
        sys.setprofile(None)
    if err is None:
        return 'skip'
    r = same(a, state(T), 'failure %r inside the compiler' % err)
    if r:
        return r
    want = result(src, 'again')
    k = T.compile(source=src, moduleName='again', className='again')
    got = (k.__name__, k.__mro__[1:], str(k(searchList=[{'x': 'X'}])),
           norm(k._CHEETAH_generatedModuleCode))
    if got != want:
        return 'another attempt gives %r instead of %r' % (got, want)
    return after(case)


def check_retry(case):
    """a failure that is gone at the second attempt, all options equal"""
    g = {'boom': [1]}

    class N(object):
        def __call__(self):
            if g['boom']:
                g['boom'].pop()
                raise Boom()
            return 'fine'
    n = N()
    src = ['#attr $q = boom()\n$q', '$x#attr $w = boom()\n'][case['i'] % 2]
    kw = dict(kwname(case), moduleGlobals={'boom': n})
    a = state(T)
    e = run('compile', T, src, kw)
    if not isinstance(e, Boom):
        return 'the error of the generated code does not reach the caller: ' \
            '%r' % e
    r = same(a, state(T), 'failure in generated code')
    if r:
        return r
    k = T.compile(source=src, **kw)
    o = str(k(searchList=[{'x': 'X'}]))
    if o != ['fine', 'X\n'][case['i'] % 2]:
        return 'another attempt renders %r' % o
    if case['name'] and case['name'] not in ('os',) and \
            k.__module__ != case['name']:
        return 'module is %s' % k.__module__
    return after(case)


def check_mixed(case):
    """good and failing compilations in turn"""
    ok = {}
    for j in case['seq']:
        if j < len(BADSRC):
            src = BADSRC[j]
        elif j < len(BADSRC) + len(BADRUN):
            src = BADRUN[j - len(BADSRC)]
        else:
            i = j - len(BADSRC) - len(BADRUN)
            k = T.compile(source=GOOD[i], **kwname(case))
            o = str(k(searchList=[{'x': 'X'}]))
            if o != BASE[i][2]:
                return '%r renders %r' % (GOOD[i], o)
            if i in ok and ok[i] is not k:
                return 'a failed compilation dropped a cached class'
            ok[i] = k
            continue
        how = case['how'] if case['how'] != 'code' else 'compile'
        r = fails(case, how, src, kwname(case))
        if r:
            return r
    return after(case)
