"""run-time contract: settings merge deeply and never leak"""
import copy
import re

PURE = None
RULE = ('nested settings merged against a reference merge with aliasing '
        'probes; sequences of compilations (API, class default, directive, '
        'preprocessor, failing sources) after each of which the caller\'s '
        'objects, class defaults and module tables are compared with deep '
        'snapshots and an unconfigured compilation with its first result')
QUICK_S = 25
THOROUGH_S = 240

KEYS = ['a', 'b', 'c', 'useNameMapper', 'x y', '', 'B']
LEAF = [None, True, False, 0, 1, '', 's', 2.5, (1, 2)]


class Leaf(object):
    pass


OBJ = Leaf()


def setup(scratch):
    global SM, Compiler, Template, CompilerMod, ParserMod, ModuleCompiler
    global BASE, PROBES
    import Cheetah.SettingsManager as SM
    import Cheetah.Compiler as CompilerMod
    import Cheetah.Parser as ParserMod
    import Cheetah.Template as TM
    Compiler = CompilerMod.Compiler
    Template = TM.Template
    PROBES = [
        "t $x.y $f(1)[2] #if $z#q#else#w#end if#\n#set $a = 1\n#def m($p=1)\n"
        "$p #raw#$x#end raw#\n#end def\n#for $i in $l\n$i\n#end for\n"
        "#filter Filter\n$x\n#end filter\n## c\n#* d *# \\$x\n$!q\n",
        '#import os\n#attr $t = 3\n$os.name#slurp\n#end#',
        '#include "f"\n#try\n$x\n#except\nn\n#end try\n#i18n\nhi\n#end i18n\n'
        '@x %set <% 1 %>']
    BASE = [probe(i) for i in range(len(PROBES))]


def norm(code):
    if isinstance(code, bytes):
        code = code.decode('utf-8')
    code = re.sub(r'(?m)^__CHEETAH_(genTime|genTimestamp|src|srcLastModified)'
                  r'__.*$', '', code)
    code = re.sub(r"# (Mon|Tue|Wed|Thu|Fri|Sat|Sun) .*", '', code)
    return re.sub(r'_\d{6,}(_\d+)*', '_N', code)


def probe(i):
    try:
        c = Compiler(source=PROBES[i], moduleName='m', mainClassName='m')
        c.compile()
        a = norm(c.getModuleCode())
    except Exception as e:
        a = 'error %s' % type(e).__name__
    try:
        b = norm(Template.compile(source=PROBES[i], returnAClass=False,
                                  moduleName='m', className='m',
                                  cacheCompilationResults=False))
    except Exception as e:
        b = 'error %s' % type(e).__name__
    return a, b


def rdict(rng, depth):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        k = rng.choice(KEYS)
        r = rng.random()
        if depth and r < .45:
            d[k] = rdict(rng, depth - 1)
        elif r < .55:
            d[k] = [1, 2]
        else:
            d[k] = rng.choice(LEAF)
    return d


def ref(d1, d2):
    out = dict(d1)
    for k, v in d2.items():
        if k in out and isinstance(out[k], dict) and isinstance(v, dict):
            out[k] = ref(out[k], v)
        else:
            out[k] = snapshot(v)
    return out


def poke(d):
    """change every dictionary reachable inside d"""
    for k, v in list(d.items()):
        if isinstance(v, dict):
            poke(v)
    d['poked'] = 1


TOGGLE = {'useNameMapper': [True, False], 'useAutocalling': [True, False],
          'useFilters': [True, False], 'useStackFrames': [True, False],
          'alwaysFilterNone': [True, False], 'useSearchList': [True, False],
          'cheetahVarStartToken': ['@', '$', '!!'],
          'directiveStartToken': ['%', '#'], 'directiveEndToken': ['%', '#'],
          'commentStartToken': ['//', '##'],
          'allowWhitespaceAfterDirectiveStartToken': [True, False],
          'mainMethodName': ['respond', 'main'], 'initialMethIndentLevel':
          [2], 'outputRowColComments': [True, False],
          'includeRawExprInFilterArgs': [True, False],
          'useLegacyImportMode': [True, False],
          'allowNestedDefScopes': [True, False],
          'prioritizeSearchListOverSelf': [True, False],
          'disabledDirectives': [['set'], ['if', 'for'], []],
          'enabledDirectives': [['set', 'if'], []],
          'allowEmptySingleLineMethods': [True, False],
          'autoAssignDummyTransactionToSelf': [True, False],
          'commentOffset': [1, 3], 'EOLSlurpToken': ['#', '~'],
          'useErrorCatcher': [True, False], 'encoding': [None],
          'macroDirectives': ['M'], 'directiveNamesAndParsers': ['D'],
          'endDirectiveNamesAndHandlers': ['E'],
          'closeableDirectives': [['foo'], []],
          'expressionFilterHooks': [[]], 'preparsePlaceholderHooks': [[]],
          'postparseDirectiveHooks': [[]], 'preparseDirectiveHooks': [[]],
          'custom': ['N'], 'gettextTokens': [['_'], []]}


def macro(src, parser=None):
    return src


def sval(k, v):
    if v == 'M':
        return {'mac': macro}
    if v == 'D':
        return {'set': 'eatSet', 'breakpoint': False}
    if v == 'E':
        return {'if': 'handleEndIf' if False else None} if False else {}
    if v == 'N':
        return {'n': {'m': [1], 'k': {}}, 'z': 1}
    return copy.copy(v)


SRC = ['plain $x', '#set $a = 1\n$a #if 1#x#end if#', '$x #end if', '${x',
       '#def m\nx\n#end def\n$m', '#mac: hi\n', '@x %set @y = 1%\n// c\n',
       '#compiler-settings\nuseFilters = False\n#end compiler-settings\n$x',
       '#compiler-settings python\nmacroDirectives = {"q": None}\n'
       '#end compiler-settings\n',
       '#compiler-settings python\ncustom = {"n": {"k": {"new": 1}}}\n'
       '#end compiler-settings\n$x',
       '#compiler-settings python\ndirectiveNamesAndParsers = {"set": False}'
       '\n#end compiler-settings\n#set $x = 1\n',
       '#compiler-settings\ncheetahVarStartToken = @\n'
       'directiveStartToken = %\n#end compiler-settings\n@x %if 1% a %end if',
       '#compiler useNameMapper = False\n$x', '#compiler commentOffset = 2\nz',
       '#compiler-settings\ndisabledDirectives = set\n#end compiler-settings'
       '\n', '#closure foo\nx\n#end closure\n', '#defmacro mm: $src\n#mm: x\n',
       '#i18n\nx\n#end i18n\n', '', '#if 1\n', '$f(', '#extends Foo\n$x',
       '#compiler-settings\n[custom]\nk = 2\nz = None\n'
       '#end compiler-settings\n']


def rsettings(rng):
    ks = rng.sample(sorted(TOGGLE), rng.choice([1, 1, 2, 3, 4]))
    return {k: rng.choice(TOGGLE[k]) for k in ks}


def cases(rng, tier):
    for s in range(len(SRC)):
        for k in ('macroDirectives', 'custom', 'directiveNamesAndParsers',
                  'closeableDirectives', 'useFilters'):
            yield {'kind': 'compile', 'steps': [
                {'how': h, 'set': {k: TOGGLE[k][-1]}, 'src': s}
                for h in ('kw', 'cls', 'compiler')]}
    for k in ('disabledDirectives', 'enabledDirectives', 'gettextTokens',
              'expressionFilterHooks', 'preparseDirectiveHooks',
              'postparseDirectiveHooks', 'disabledDirectiveHooks'):
        for how in ('append', 'extend', 'insert'):
            yield {'kind': 'hook', 'key': k, 'how': how}
    while True:
        k = rng.choice(['merge', 'merge', 'manager', 'compile', 'compile',
                        'pre', 'two', 'effect'])
        if k in ('merge', 'manager'):
            yield {'kind': k, 'a': rdict(rng, 2), 'b': rdict(rng, 3),
                   'c': rdict(rng, 3), 'merge': rng.random() < .8,
                   'how': rng.choice(['update', 'py'])}
        elif k == 'pre':
            yield {'kind': k, 'form': rng.choice(['dict', 'obj', 'list']),
                   'set': rsettings(rng), 'tok': rng.choice(
                       ['@ %', '!! !!', ['@', '%']]),
                   'n': rng.choice([1, 2])}
        elif k == 'compile':
            yield {'kind': k, 'steps': [
                {'how': rng.choice(['kw', 'kw', 'cls', 'compiler', 'inst',
                                    'code']),
                 'set': rsettings(rng), 'src': rng.randrange(len(SRC))}
                for _ in range(rng.choice([1, 2, 3, 5]))]}
        else:
            yield {'kind': k, 'set': rsettings(rng), 'set2': rsettings(rng),
                   'src': rng.randrange(len(SRC))}


def tables():
    out = {}
    for m, ns in ((CompilerMod, ('DEFAULT_COMPILER_SETTINGS',
                                 '_DEFAULT_COMPILER_SETTINGS')),
                  (ParserMod, ('directiveNamesAndParsers',
                               'endDirectiveNamesAndHandlers',
                               'directiveNames'))):
        for n in ns:
            if hasattr(m, n):
                out[n] = copy.deepcopy(getattr(m, n))
    for k, v in vars(Template).items():
        if k.startswith('_CHEETAH_') and isinstance(
                v, (dict, list, tuple, str, int, bool, type(None), type)) \
                and 'ache' not in k:
            out['Template.' + k] = copy.deepcopy(v) if not isinstance(
                v, type) else v
    return out


def same(a, b):
    """equal in value, type and identity of opaque leaves"""
    if isinstance(a, dict) and type(a) is type(b):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and (a is b or a == b)


def check(case):
    k = case['kind']
    return globals()['check_' + k](case)


def check_hook(case):
    """a hook that changes a list setting of its own compilation in place"""
    before = tables()
    key = case['key']
    src = '$x#if 1#y#end if#'
    want = Template(src, searchList=[{'x': 'X'}]).respond()

    def hook(parser):
        v = 'if' if 'Hooks' not in key else len
        lst = parser.setting(key)
        if case['how'] == 'append':
            lst.append(v)
        elif case['how'] == 'extend':
            lst.extend([v])
        else:
            lst.insert(0, v)
    try:
        Template.compile(src, cacheCompilationResults=False, useCache=False,
                         compilerSettings={
                             'preparsePlaceholderHooks': [hook]})
    except Exception:
        pass
    after = tables()
    try:
        for n in before:
            if not same(before[n], after[n]):
                return '%s changed: a hook altered setting %r of its own ' \
                    'compilation' % (n, key)
        try:
            got = Template(src, searchList=[{'x': 'X'}]).respond()
        except Exception as e:
            return 'a later compilation fails (%r): a hook had altered ' \
                'setting %r of its own compilation' % (e, key)
        if got != want:
            return 'a later compilation renders %r instead of %r' % (
                got, want)
    finally:
        d = CompilerMod.DEFAULT_COMPILER_SETTINGS
        d.clear()
        d.update(copy.deepcopy(before['DEFAULT_COMPILER_SETTINGS']))


def check_merge(case):
    a, b, c = (copy.deepcopy(case[x]) for x in 'abc')
    b['obj'] = OBJ
    want = ref(a, b)
    b0 = copy.copy(b)
    bd = {k: copy.deepcopy(v) for k, v in b.items() if v is not OBJ}
    r = SM.mergeNestedDictionaries(a, b)
    if not eqd(r, want):
        return 'merge of %r into %r gives %r' % (case['b'], case['a'], r)
    if r.get('obj') is not OBJ:
        return 'a value was replaced by a copy'
    if set(b) != set(b0) or any(bd[k] != b[k] for k in bd):
        return 'merging changed the second dictionary: %r' % b
    want2 = ref(want, c)
    r2 = SM.mergeNestedDictionaries(r, c)
    if not eqd(r2, want2):
        return 'second merge gives %r instead of %r' % (r2, want2)
    poke(r2)
    if any(bd[k] != b[k] for k in bd) or 'poked' in b or c != case['c']:
        return 'the merged settings share a dictionary with the new ' \
            'settings: %r %r' % (b, c)
    return None


def eqd(x, y):
    return x == y and set(map(str, x)) == set(map(str, y))


def check_manager(case):
    class Man(SM.SettingsManager):
        def _initializeSettings(self):
            self.updateSettings(copy.deepcopy(case['a']))
    m, other = Man(), Man()
    if m.settings() != case['a']:
        return 'initial settings %r' % m.settings()
    b = copy.deepcopy(case['b'])
    if case['how'] == 'py':
        b = {k: v for k, v in b.items() if k.isidentifier()}
        b.pop('mergeSettings', None)
        m.updateSettingsFromPySrcStr('\n'.join(
            '%s = %r' % kv for kv in b.items()), merge=case['merge'])
    else:
        m.updateSettings(b, merge=case['merge'])
    want = ref(case['a'], b)
    if not case['merge']:
        want = dict(case['a'])
        want.update(b)
    if m.settings() != want:
        return 'settings are %r instead of %r' % (m.settings(), want)
    for key in list(want) + ['missing']:
        if m.hasSetting(key) != (key in want):
            return 'hasSetting(%r)' % key
        if m.setting(key, 5) != want.get(key, 5):
            return 'setting(%r)' % key
        if key in want and m.setting(key) != want[key]:
            return 'setting(%r)' % key
    try:
        m.setting('missing')
        return 'missing setting has a value'
    except KeyError:
        pass
    if other.settings() != case['a']:
        return 'another manager changed: %r' % other.settings()
    cp, dp = m.copySettings(), m.deepcopySettings()
    if cp != want or dp != want:
        return 'copies differ'
    cp['zzz'] = 1
    poke(dp)
    if m.settings() != want:
        return 'changing a copy changes the settings'
    m.setSetting('q', 7)
    if m.setting('q') != 7 or 'q' in case['b'] and False:
        return 'setSetting'
    if case['merge'] and case['how'] == 'update':
        poke(m.settings())
        if b != case['b']:
            return 'settings share a dictionary with the caller'
    return None


def build(spec):
    return {k: sval(k, v) for k, v in spec.items()}


def check_compile(case):
    t0 = tables()
    callers = []
    for st in case['steps']:
        s = build(st['set'])
        snap = snapshot(s)
        src = SRC[st['src']]
        h = st['how']
        callers.append((s, snap))
        try:
            if h == 'kw':
                Template.compile(source=src, compilerSettings=s,
                                 cacheCompilationResults=False)
            elif h == 'code':
                Template.compile(source=src, compilerSettings=s,
                                 returnAClass=False)
            elif h == 'cls':
                K = type('K', (Template,), {'_CHEETAH_compilerSettings': s})
                K.compile(source=src, cacheCompilationResults=False)
                if K._CHEETAH_compilerSettings is not s:
                    return 'class default was replaced'
            elif h == 'inst':
                Template(src, compilerSettings=s)
            else:
                c = Compiler(source=src, moduleName='m', mainClassName='m',
                             settings=s)
                c.compile()
                c.getModuleCode()
        except Exception:
            pass
        for s_, sn in callers:
            if not same(snapshot(s_), sn):
                return 'compiling %r changed the caller\'s settings from ' \
                    '%r to %r' % (src, sn, s_)
        t1 = tables()
        for n in t0:
            if not same(t0[n], t1.get(n)):
                return 'compiling %r with %r changed %s' % (src, s, n)
    for i, b in enumerate(BASE):
        if probe(i) != b:
            return 'after compiling with %r a compilation without settings ' \
                'differs' % ([(x['set'], SRC[x['src']])
                              for x in case['steps']],)
    return None


def snapshot(s):
    if isinstance(s, dict):
        return {k: snapshot(v) for k, v in s.items()}
    if isinstance(s, list):
        return [snapshot(v) for v in s]
    return s


def check_pre(case):
    cs = {k: v for k, v in build(case['set']).items()
          if 'Token' not in k and k not in ('disabledDirectives',
                                            'enabledDirectives')}
    ia = {}
    t0 = tables()
    d = {'tokens': case['tok'], 'compilerSettings': cs,
         'templateInitArgs': ia, 'searchList': [{'x': 1}]}
    if case['form'] == 'obj':
        class S(object):
            placeholderToken = directiveToken = None
        arg = S()
        for k, v in d.items():
            setattr(arg, k, v)
    elif case['form'] == 'list':
        arg = [dict(d)]
    else:
        arg = dict(d)
    snap = snapshot(cs)
    before = snapshot(dict(vars(arg))) if case['form'] == 'obj' else \
        snapshot(arg)
    for _ in range(case['n']):
        try:
            Template.compile(source='$x @x !!x #set $y = 1\n',
                             preprocessors=arg,
                             cacheCompilationResults=False)
        except Exception:
            pass
    if not same(snapshot(cs), snap) or ia:
        return 'preprocessing changed the caller\'s settings to %r, %r' % (
            cs, ia)
    after = snapshot(dict(vars(arg))) if case['form'] == 'obj' else \
        snapshot(arg)
    if not same(before, after):
        return 'preprocessing changed the caller\'s preprocessor argument ' \
            'from %r to %r' % (before, after)
    if not same(t0, tables()):
        return 'preprocessing changed class defaults'
    return None


def check_two(case):
    """two compilers alive at the same time"""
    a = Compiler(source='$x', moduleName='m', mainClassName='m')
    d0 = copy.deepcopy(a.settings())
    s = build(case['set'])
    b = Compiler(source='$x', moduleName='m', mainClassName='m', settings=s)
    if a.settings() != d0:
        return 'making a compiler with %r changed another one' % s
    want = ref(d0, s)
    if b.settings() != want and not set(s) & {'macroDirectives'}:
        return 'compiler with %r has settings differing at %r' % (
            s, [k for k in want if want[k] != b.settings().get(k)] +
            [k for k in b.settings() if k not in want])
    b.updateSettings(build(case['set2']))
    poke(b.settings())
    if a.settings() != d0:
        return 'updating a compiler with %r changed another one' % (
            case['set2'],)
    if CompilerMod.Compiler(source='$x', moduleName='m',
                            mainClassName='m').settings() != d0:
        return 'updating a compiler changed the defaults'
    return None


def check_effect(case):
    """only the given keys differ from the defaults after a whole compile"""
    s = build(case['set'])
    c = Compiler(source='text $x\n', moduleName='m', mainClassName='m')
    c.compile()
    c.getModuleCode()
    d = c.settings()
    e = Compiler(source='text', moduleName='m', mainClassName='m', settings=s)
    try:
        e.compile()
    except Exception:
        return 'skip'
    want = ref(d, s)
    got = e.settings()
    bad = [k for k in set(want) | set(got) if k not in want or k not in got
           or want[k] != got[k]]
    if bad:
        return 'with settings %r the compiler has other settings than ' \
            'asked for: %r' % (s, {k: got.get(k) for k in bad})
    return None
