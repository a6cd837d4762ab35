"""run-time contract of the directive gate and of the expression and directive
hooks: which directives a template uses is known from how it was built"""
PURE = True
RULE = ('every directive alone and nested (multi-line and single-line forms, '
        'other tokens, macro output) x disabled/enabled sets in several '
        'spellings; hooks must see every expression marker and directive; '
        'then random nestings')
QUICK_S = 40
THOROUGH_S = 400

# directive -> templates ({m}: a fresh expression marker); D is the token;
# second part: the directives used, in order
SN = {
    'import': [('Dimport sys as {m}\n', 'import')],
    'from': [('Dfrom sys import path as {m}\n', 'from')],
    'silent': [('Dsilent ${m}\n', 'silent'), ('a Dsilent ${m}D b\n',
                                              'silent')],
    'echo': [('Decho ${m} + 1\n', 'echo')],
    'slurp': [('xDslurp\ny\n', 'slurp')],
    'raw': [('Draw\n$x DifD\nDend raw\n', 'raw'), ('Draw: $y Dif\n', 'raw')],
    'include': [('Dinclude ${m}\n', 'include'),
                ('Dinclude source=${m}\n', 'include'),
                ('Dinclude raw ${m}\n', 'include'),
                ('Dinclude raw source=${m}\n', 'include')],
    'cache': [('Dcache timer=5, id={m}\nx\nDend cache\n', 'cache end'),
              ('Dcache varyBy=${m}, id="i"\nx\nDend cache\n', 'cache end'),
              ('Dcache id=${m}: x\n', 'cache')],
    'filter': [('Dfilter {m}\nx\nDend filter\n', 'filter end'),
               ('Dfilter ${m}\nx\nDend filter\n', 'filter end')],
    'transform': [('Dtransform {m}\n', 'transform')],
    'call': [('Dcall {m}\nx\nDend call\n', 'call end'),
             ('Dcall {m} x=${m}\nx\nDend call\n', 'call end'),
             ('Dcall {m}: x\n', 'call')],
    'arg': [('Dcall {m}\nDarg {m}\nx\nDend call\n', 'call arg end'),
            ('Dcall {m}\nDarg {m}: x\nDend call\n', 'call arg end')],
    'capture': [('Dcapture {m}\nx\nDend capture\n', 'capture end'),
                ('Dcapture {m}: x\n', 'capture')],
    'attr': [('Dattr $nm = {m}\n', 'attr'), ('Dattr nm = 1+{m}\n',
                                              'attr')],
    'def': [('Ddef {m}(a={m}, b=${m})\nx\nDend def\n', 'def end'),
            ('Ddef {m}: x\n', 'def')],
    'block': [('Dblock {m}\nx\nDend block\n', 'block end'),
              ('Dblock {m}: x\n', 'block')],
    'closure': [('Dclosure {m}(a={m})\nx\nDend closure\n', 'closure end'),
                ('Dclosure {m}(a=${m}): x\n', 'closure')],
    '@': [('D@{m}\nDdef {m}(a=1)\nx\nDend def\n', '@ def end'),
          ('D@{m}(${m})\nD@{m}\nDdef {m}: x\n', '@ @ def'),
          ('D@{m}\nDblock {m}\nx\nDend block\n', '@ block end')],
    'set': [('Dset ${m} = ${m} + {m}\n', 'set'),
            ('Dset global {m} = {m}\n', 'set'),
            ('Dset module ${m} = 1\n', 'set'),
            ('Dset ${m}[{m}] = 1\n', 'set')],
    'del': [('Ddel {m}\n', 'del')],
    'if': [('Dif ${m}\nx\nDend if\n', 'if end'), ('Dif {m}: x\n', 'if'),
           ('Dif ${m} then ${m} else {m}\n', 'if'),
           ('DIF' .lower() + ' ${m}D x Dend ifD\n', 'if end')],
    'else': [('Dif {m}\nx\nDelse\ny\nDend if\n', 'if else end'),
             ('Dif {m}: x\nDelse: y\n', 'if else'),
             ('Dif {m}\nx\nDelse if {m}\ny\nDend if\n', 'if else end')],
    'elif': [('Dif {m}\nx\nDelif ${m}\ny\nDend if\n', 'if elif end')],
    'unless': [('Dunless ${m}\nx\nDend unless\n', 'unless end'),
               ('Dunless {m}: x\n', 'unless')],
    'while': [('Dwhile ${m}\nx\nDend while\n', 'while end')],
    'for': [('Dfor {m} in ${m}\nx\nDend for\n', 'for end'),
            ('Dfor ${m} in [{m}]: x\n', 'for')],
    'repeat': [('Drepeat ${m}\nx\nDend repeat\n', 'repeat end'),
               ('Drepeat {m}: x\n', 'repeat')],
    'pass': [('Dif {m}\nDpass\nDend if\n', 'if pass end')],
    'break': [('Dwhile 1\nDbreak\nDend while\n', 'while break end')],
    'continue': [('Dwhile 1\nDcontinue\nDend while\n',
                  'while continue end')],
    'stop': [('Dstop\n', 'stop')],
    'return': [('Ddef {m}\nDreturn {m}\nDend def\n', 'def return end')],
    'yield': [('Ddef {m}\nDyield {m}\nDend def\n', 'def yield end')],
    'assert': [('Dassert ${m}, {m}\n', 'assert')],
    'raise': [('Draise {m}(${m})\n', 'raise')],
    'try': [('Dtry\nx\nDexcept {m}\ny\nDend try\n', 'try except end')],
    'except': [('Dtry\nx\nDexcept\ny\nDend try\n', 'try except end')],
    'finally': [('Dtry\nx\nDfinally\ny\nDend try\n', 'try finally end')],
    'errorCatcher': [('DerrorCatcher Echo\nx\n', 'errorCatcher')],
    'breakpoint': [('Dbreakpoint\nx\n', 'breakpoint')],
    'shBang': [('DshBang D!/usr/bin/env python\n', 'shBang')],
    'encoding': [('Dencoding utf-8\n', 'encoding')],
    'extends': [('Dextends {m}\n', 'extends')],
    'implements': [('Dimplements {m}\n', 'implements'),
                   ('Dimplements {m}(self, a={m})\n', 'implements')],
    'super': [('Ddef {m}\nDsuper\nDend def\n', 'def super end'),
              ('Ddef {m}\nDsuper({m})\nDend def\n', 'def super end')],
    'compiler-settings': [('Dcompiler-settings\nuseFilters = True\n'
                           'Dend compiler-settings\n', 'compiler-settings')],
    'compiler': [('Dcompiler useFilters = 1\n', 'compiler')],
    'defmacro': [('Ddefmacro {m}\nxyz\nDend defmacro\n', 'defmacro'),
                 ('Ddefmacro {m}(zz="{m}"): xyz\n', 'defmacro')],
    'i18n': [('Di18n(domain="{m}"): txt\n', 'i18n'),
             ('Di18n\ntxt\nDend i18n\n', 'i18n')],
    'mac': [('Dmac(arg="{m}"): txt\n', 'mac echo'),
            ('Dmac\ntxt\nDend mac\n', 'mac echo')],
    'MacUp': [('DMacUp: txt\n', 'MacUp')],
    'psp': [('<% {m} = 1 %>\n', 'psp'), ('a <%= {m} %> b', 'psp')],
    '': [('plain $x ${m} ${{{m}}} $({m}+1) $[{m}] $!{m} $*{m} $*5*{m}.y\n',
          ''),
         ('${{{m}, maxlen=${m}}} ${m}(${m}, {m}[${m}])\n', ''),
         ('D## no directive\n\\Dif \\$y D* Dimport x *D text\n', '')],
}
WRAP = [('Dif {m}\n%sDend if\n', 'if|end'),
        ('Dif 0\na\nDelse\n%sDend if\n', 'if else|end'),
        ('Dfor {m} in {m}\n%sDend for\n', 'for|end'),
        ('Dunless 0\n%sDend unless\n', 'unless|end'),
        ('Dtry\n%sDexcept\nb\nDend try\n', 'try|except end'),
        ('Dblock {m}\n%sDend block\n', 'block|end'),
        ('Dclosure {m}\n%sDend closure\n', 'closure|end'),
        ('Dcall {m}\n%sDend call\n', 'call|end'),
        ('Dcall {m}\nDarg {m}\n%sDend call\n', 'call arg|end'),
        ('Dcapture {m}\n%sDend capture\n', 'capture|end'),
        ('Dcache\n%sDend cache\n', 'cache|end'),
        ('Dfilter {m}\n%sDend filter\n', 'filter|end'),
        ('Drepeat 2\n%sDend repeat\n', 'repeat|end'),
        ('text\n%stext\n', '|')]
DEFWRAP = ('Ddef {m}\n%sDend def\n', 'def|end')
TOPONLY = {'extends', 'implements', 'def', '@', 'return', 'yield', 'super',
           'import', 'from', 'attr', 'encoding', 'shBang', 'stop',
           'compiler-settings', 'compiler', 'breakpoint', 'closure', 'block',
           'while', 'break', 'continue', 'defmacro', 'errorCatcher'}
ALL = sorted(k for k in SN if k)
NOSEEN = {'compiler-settings'}


def setup(scratch):
    global T, P, I18N
    import Cheetah.Template as T_
    import Cheetah.Parser as P_
    T, P = T_, P_


def gate(rng, used):
    """settings for a random restriction and whether it forbids the use"""
    def spell(n):
        return rng.choice([n, n, n.lower(), n.upper(), n.capitalize()])
    low = {u.lower() for u in used}
    r = rng.random()
    others = [n for n in ALL + ['end'] if n.lower() not in low]
    mode = rng.choice(['dis', 'en', 'both'])
    if r < .5 and low:
        bad = rng.choice(sorted(used))
        dis = [spell(bad)] + [spell(x) for x in
                              rng.sample(others, rng.randint(0, 3))]
        en = [spell(u) for u in used if u != bad] + [
            spell(x) for x in rng.sample(others, rng.randint(1, 3))]
        forb = True
    else:
        dis = [spell(x) for x in rng.sample(others, rng.randint(0, 8))]
        if rng.random() < .3:
            dis = [spell(x) for x in others]
        en = [spell(u) for u in used] + [
            spell(x) for x in rng.sample(others, rng.randint(0, 3))]
        en = en if len(en) else [others[0]]
        forb = False
    if mode == 'dis':
        return {'disabledDirectives': dis}, forb
    if mode == 'en':
        return {'enabledDirectives': en}, forb
    if not forb:
        en = [e for e in en if e.lower() in low] or ['zzz']
    return {'disabledDirectives': dis, 'enabledDirectives': en}, forb


def make(rng, name, i, depth):
    t, u = SN[name][i]
    used = u.split()
    for _ in range(depth):
        w, wu = rng.choice(WRAP)
        if name in TOPONLY:
            w, wu = WRAP[-1]
        elif rng.random() < .15 and 'Ddef' not in t and 'Dblock' not in t \
                and 'Dclosure' not in t:
            w, wu = DEFWRAP
        if 'Ddef' in t and 'Ddef' in w:
            continue
        if ('Dcapture' in t or 'Dcall' in t or 'Dcache' in t) and \
                ('Dblock' in w):
            pass
        a, b = wu.split('|')
        t = w.replace('%s', t)
        used = a.split() + used + b.split()
    return t, used


def cases(rng, tier):
    k = 0
    for name in sorted(SN):
        for i in range(len(SN[name])):
            for depth in (0, 1):
                t, used = make(rng, name, i, depth)
                for tok in ('#', '%%') if depth else ('#',):
                    yield {'kind': 'hooks', 't': t, 'u': used, 'tok': tok}
                for n in sorted(set(used)):
                    for sp in {n, n.lower(), n.upper()}:
                        yield {'kind': 'gate', 't': t, 'u': used,
                               'tok': '#', 'forb': True,
                               's': {'disabledDirectives': [sp, 'zzz']}}
                    yield {'kind': 'gate', 't': t, 'u': used, 'tok': '#',
                           'forb': True, 's': {'enabledDirectives': [
                               x for x in ALL + ['end'] if x.lower() !=
                               n.lower()]}}
                yield {'kind': 'gate', 't': t, 'u': used, 'tok': '#',
                       'forb': False, 's': {'disabledDirectives': [
                           x for x in ALL + ['end'] if x.lower() not in
                           {y.lower() for y in used}]}}
                if used:
                    yield {'kind': 'gate', 't': t, 'u': used, 'tok': '#',
                           'forb': False, 's': {'enabledDirectives':
                                                sorted(set(used))}}
    names = sorted(SN)
    while True:
        parts = []
        used = []
        for _ in range(rng.randint(1, 4)):
            n = rng.choice(names)
            if n in ('stop', 'encoding', 'shBang', 'extends', 'implements',
                     'errorCatcher') and parts:
                continue
            t, u = make(rng, n, rng.randrange(len(SN[n])), rng.randint(0, 3))
            parts.append(t)
            used += u
            if n == 'breakpoint':    # nothing after it is read
                break
        t = ''.join(parts)
        tok = rng.choice(['#', '#', '%%', '@@'])
        if rng.random() < .5:
            yield {'kind': 'hooks', 't': t, 'u': used, 'tok': tok}
        else:
            s, forb = gate(rng, set(used))
            yield {'kind': 'gate', 't': t, 'u': used, 'tok': tok,
                   'forb': forb, 's': s}


def mac(src, arg=None):
    return ECHO[0] + 'echo 1\n'


def macup(src):
    return 'up ' + src


ECHO = ['#']


def fill(case):
    n = [0]

    def one():
        n[0] += 1
        return 'zq%dx' % n[0]
    t = case['t']
    out = []
    i = 0
    while i < len(t):
        if t.startswith('{m}', i):
            out.append(one())
            i += 3
        elif t.startswith('${{{m}', i):
            out.append('${' + one())
            i += 6
        elif t.startswith('}}', i):
            out.append('}')
            i += 2
        else:
            out.append(t[i])
            i += 1
    t = ''.join(out)
    import re
    t = re.sub(r'D(?=[a-z@!#*]|MacUp)', lambda m: case['tok'], t)
    t = re.sub(r'D(?=[ \n])', lambda m: case['tok'], t)
    t = t.replace('*D', '*' + case['tok'])
    return t, ['zq%dx' % (k + 1) for k in range(n[0])]


def settings(case):
    s = {'macroDirectives': {'mac': mac, 'MacUp': macup},
         'allowNestedDefScopes': True}
    if case['tok'] != '#':
        s['directiveStartToken'] = case['tok']
        s['directiveEndToken'] = case['tok']
        s['commentStartToken'] = case['tok'] * 2 \
            if case['tok'] != '%%' else '%%%%'
        s['multiLineCommentStartToken'] = case['tok'] + '*'
        s['multiLineCommentEndToken'] = '*' + case['tok']
        s['EOLSlurpToken'] = case['tok']
    ECHO[0] = case['tok']
    return s


class Reject(Exception):
    pass


def comp(src, s):
    return T.Template.compile(src, returnAClass=False, compilerSettings=s,
                              useCache=False,
                              cacheCompilationResults=False)


def strip(code):
    import re
    code = code.decode('utf-8') if isinstance(code, bytes) else code
    return re.sub(r'(?m)^__CHEETAH_(gen|src).*$|^.*generated.*$|'
                  r'__CHEETAH_gen.*|\d{9,}[\d.]*|[\d_]{6,}|_\d{3,}', '', code)


def check(case):
    src, marks = fill(case)
    base = settings(case)
    try:
        code0 = comp(src, dict(base))
    except Exception:
        return 'skip'        # not a valid combination
    what = repr(src)
    if case['kind'] == 'gate':
        s = dict(base, **case['s'])
        called = []
        s['disabledDirectiveHooks'] = [
            lambda parser, directiveName: called.append(directiveName)]
        settings(case)
        try:
            code = comp(src, s)
        except P.ForbiddenDirective as e:
            if not case['forb']:
                return '%s is refused with %r though it uses only %r: %s' % (
                    what, case['s'], sorted(set(case['u'])), e)
            if len(called) != 1:
                return '%s: the hook for disabled directives was called ' \
                    'with %r' % (what, called)
            return None
        except Exception as e:
            return '%s with %r gives %s: %s' % (what, case['s'],
                                                type(e).__name__, e)
        if case['forb']:
            return '%s compiles with %r though it uses %r' % (
                what, case['s'], sorted(set(case['u'])))
        if strip(code) != strip(code0):
            return '%s is compiled differently with %r' % (what, case['s'])
        return None
    seen, pre, post = [], [], []

    def ef(parser, expr, exprType, rawExpr=None, startPos=None):
        seen.append('%s\n%s' % (expr, rawExpr))
        return expr
    s = dict(base)
    s['expressionFilterHooks'] = [ef]
    s['preparseDirectiveHooks'] = [
        lambda parser, directiveName: pre.append(directiveName)]
    s['postparseDirectiveHooks'] = [
        lambda parser, directiveName: post.append(directiveName)]
    settings(case)
    code = comp(src, s)
    if strip(code) != strip(code0):
        return '%s is compiled differently with hooks' % what
    txt = '\n'.join(seen)
    for m in marks:
        if m not in txt:
            return '%s: the expression with %s does not pass the hooks' % (
                what, m)
    want = sorted(u for u in case['u'] if u != 'psp')
    if sorted(pre) != want:
        return '%s: directive hooks were called for %r, not for %r' % (
            what, sorted(pre), want)
    if sorted(post) != want:
        return '%s: hooks after directives were called for %r, not %r' % (
            what, sorted(post), want)
    for m in marks:
        def no(parser, expr, exprType, rawExpr=None, startPos=None, m=m):
            if m in '%s\n%s' % (expr, rawExpr):
                raise Reject(m)
            return expr
        s = dict(base)
        s['expressionFilterHooks'] = [no]
        settings(case)
        try:
            comp(src, s)
        except Reject:
            continue
        except Exception as e:
            return '%s with %s rejected gives %s: %s' % (
                what, m, type(e).__name__, e)
        return '%s compiles though its expression with %s is rejected' % (
            what, m)
    return None
