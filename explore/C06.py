"""run-time contract of directive nesting: a template is accepted exactly when
an independent reference automaton accepts its directives"""
import random

RULE = ('templates from random directive sequences (well nested, and one or '
        'two edits away from it), line and inline forms, short forms, '
        'truncations; accepted exactly when the reference automaton accepts, '
        'a rejection is a ParseError whose report can be formatted')
QUICK_S = 40
THOROUGH_S = 400

OPEN = {'if': '#if $a', 'unless': '#unless $a', 'for': '#for $i in $l',
        'while': '#while $w()', 'repeat': '#repeat 2', 'try': '#try',
        'def': '#def m%d', 'block': '#block m%d', 'closure': '#closure m%d',
        'cache': '#cache', 'call': '#call $f', 'capture': '#capture c%d',
        'filter': '#filter WebSafe'}
CONT = {'else': '#else', 'elif': '#elif $b', 'else if': '#else if $b',
        'except': '#except ValueError', 'finally': '#finally'}
ALLOW = {'if': 'else elif', 'unless': 'else elif', 'for': 'else',
         'while': 'else', 'repeat': 'else', 'try': 'except else finally'}
SHORT = {'if': '#if $a: s', 'for': '#for $i in $l: s', 'while':
         '#while $w(): s', 'unless': '#unless $a: s', 'def': '#def m%d: s',
         'block': '#block m%d: s', 'cache': '#cache: s',
         'capture': '#capture c%d: s', 'call': '#call $f: s',
         'filter': '#filter WebSafe: s', 'repeat': '#repeat 2: s',
         'closure': '#closure m%d: s', 'try': None}


def reference(toks):
    """True: must be accepted; False: must be rejected as misnested; None:
    something else (left open)"""
    st = []
    either = False
    for t in toks:
        k = t[0]
        if k == 'open':
            st.append([t[1], 'start'])
        elif k == 'end':
            if not st or st[-1][0] != t[1]:
                return False
            n, s = st.pop()
            if n == 'try' and s == 'start':
                either = True           # no handler: Python's syntax error
        elif k == 'cont':
            c = 'elif' if t[1] == 'else if' else t[1]
            if not st or c not in ALLOW.get(st[-1][0], '').split():
                return False
            n, s = st[-1]
            if s in ('else', 'finally') and not (
                    n == 'try' and s == 'else' and c == 'finally'):
                return False
            if n == 'try' and c == 'else' and s == 'start':
                return False
            st[-1][1] = c
    if st:
        return False
    return None if either else True


def render(toks, style):
    """style per directive: own line, or inline (closed by #)"""
    out = []
    n = 0
    for i, t in enumerate(toks):
        inl = style[i % len(style)]
        k = t[0]
        if k == 'text':
            out.append(t[1])
            continue
        if k == 'short':
            d = SHORT[t[1]]
        elif k == 'open':
            d = OPEN[t[1]]
        elif k == 'cont':
            d = CONT[t[1]]
        else:
            d = '#end ' + t[1]
        if '%d' in d:
            n += 1
            d = d % n
        if k == 'short':
            if out and not out[-1].endswith('\n'):
                out.append('\n')
            out.append(d + '\n')
        elif inl == 1:
            out.append(d + '#')
        elif inl == 2 and k != 'end':
            out.append((d if out and out[-1].endswith('\n') else '\n' + d) +
                       ':\n')
        else:
            out.append((d if not out or out[-1].endswith('\n') else
                        '\n' + d) + '\n')
        # every body has some text of its own, so that it is never empty
        if k in ('open', 'cont'):
            out.append('t%d\n' % i if inl != 1 else 't%d' % i)
    text = ''
    for x in out:
        # '##' would be a comment
        text += '.' + x if text.endswith('#') and x.startswith('#') else x
    return text


def gen(rng, depth, names):
    toks = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if depth <= 0 or r < .25:
            toks.append(['text', rng.choice(['x', 'y\n', ' z ', '$a', '\n##c\n',
                                             '\\#end if ', '#*c*#'])])
        elif r < .33:
            toks.append(['short', rng.choice([s for s in SHORT
                                              if SHORT[s]])])
        else:
            n = rng.choice(names)
            toks.append(['open', n])
            toks += gen(rng, depth - 1, names)
            if n in ('if', 'unless'):
                for _ in range(rng.choice([0, 0, 1, 2])):
                    toks.append(['cont', rng.choice(['elif', 'else if'])])
                    toks += gen(rng, depth - 2, names)
            if n == 'try':
                h = rng.choice([['except'], ['finally'],
                                ['except', 'else'],
                                ['except', 'else', 'finally'],
                                ['except', 'finally']])
                for c in h:
                    toks.append(['cont', c])
                    toks += gen(rng, depth - 2, names)
            elif n in ALLOW and rng.random() < .4:
                toks.append(['cont', 'else'])
                toks += gen(rng, depth - 2, names)
            toks.append(['end', n])
    return toks


def depth_of(toks):
    d = m = 0
    for t in toks:
        d += (t[0] == 'open') - (t[0] == 'end')
        m = max(m, d)
    return m


def mutate(rng, toks):
    toks = [list(t) for t in toks]
    idx = [i for i, t in enumerate(toks) if t[0] in ('open', 'end', 'cont')]
    if not idx:
        return toks + [['end', rng.choice(list(OPEN))]]
    k = rng.randrange(8)
    i = rng.choice(idx)
    if k == 0:
        del toks[i]
    elif k == 1:
        toks.insert(rng.randrange(len(toks) + 1), ['end', rng.choice(
            list(OPEN))])
    elif k == 2:
        toks.insert(rng.randrange(len(toks) + 1), ['cont', rng.choice(
            list(CONT))])
    elif k == 3:
        j = rng.choice(idx)
        toks[i], toks[j] = toks[j], toks[i]
    elif k == 4:
        toks = toks[:i]
    elif k == 5 and toks[i][0] == 'end':
        toks[i][1] = rng.choice(list(OPEN))
    elif k == 6:
        toks.insert(i, list(toks[i]))
    else:
        toks.insert(rng.randrange(len(toks) + 1), ['open', rng.choice(
            list(OPEN))])
    return toks


FIXED = [
    # (template, acceptable?)
    ('#if $a: s\n#else: t\nu', True),
    ('#if $a: s\n#elif $b: t\n#else: u\nv', True),
    ('#try: $zz\n#except: t\nu', True),
    ('#try: $a\n#except: t\n#finally: u\nv', True),
    ('$a#else: y\n', False), ('#else: y\n', False), ('x\n#else: y\n', False),
    ('#if $a: s\n$b#else: y\n', False),
    ('#echo $a#\n#else: y\n', False),
    ('#if $a\nx\n#end if\n#else: b\n', False),
    ('#for $i in $l\n$i\n#end for\n#else: b\n', False),
    ('#if $a: #for $i in $l#x\n b\n#end for\n', False),
    ('#for $i in $l\n#if $a: x#end for\n', False),
    ('#if $a\n#for $i in $l: b#else#\n c\n#end if\n', False),
    ('#if $a\n#if $b: 1\n#else: 2\n#else\n3\n#end if\n', True),
    ('#def f: #if $a: x\n#if $a\nfoo\n#end if\n$f()', True),
    ('#block f: #if $a: x\n#if $a\nfoo\n#end if\n', True),
    ('#cache\nx\n#else\ny\n#end cache\n', False),
    ('#filter WebSafe\nx\n#else\ny\n#end filter\n', False),
    ('#call $f\nx\n#else\ny\n#end call\n', False),
    ('#capture c\nx\n#except\ny\n#end capture\n', False),
    ('#if $a\nx\n#cache\nx\n#else\ny\n#end cache\n#end if\n', False),
    ('#arg x\n', False), ('#call $f\nx\n#end call\n#arg y\n', False),
    ('#call $f\n#arg x\n1\n#arg y\n2\n#end call\n', True),
    ('#end if', False), ('#end', False), ('#end foo', False),
    ('#if $a', False), ('#if $a\n', False), ('#for $i in $l', False),
    ('#def f', False), ('#def f(', False), ('#block b', False),
    ('#cache', False), ('#filter WebSafe', False), ('#call $f', False),
    ('#capture c', False), ('#try', False), ('#while $a', False),
    ('#unless $a', False), ('#repeat 3', False), ('#closure f', False),
    ('#if $a\nx\n#end', False), ('#if $a\nx\n#end ', False),
    ('#if $a then 1 else 2', True),
]
TRUNC = [
    '#if $a\n x\n#elif $b\ny\n#else\n b\n#end if',
    '#for $i in $l\n$i\n#end for', '#while $w()\n$a\n#end while',
    '#def f($x, y=3, *args)\n${x} $(a)\n#end def',
    '#cache timer="3s", id="a"\nabc\n#end cache',
    '#call $f\n#arg x\n2\n#end call', '#capture c\nz\n#end capture',
    '#filter WebSafe\n$a\n#end filter',
    '#try\n$a\n#except Exception\nx\n#finally\ny\n#end try',
    '#block b\nxx\n#end block', '#unless $a\nx\n#end unless',
    '#repeat 3\nx\n#end repeat', '#closure f($x)\nx\n#end closure',
    '#if $a\n#for $i in $l\n#cache\n$i\n#end cache\n#end for\n#end if',
]


def cases(rng, tier):
    for src, ok in FIXED:
        yield {'kind': 'fixed', 'src': src, 'ok': ok}
    for a in OPEN:
        for b in OPEN:
            for e1, e2 in ((b, a), (a, b), (b, b), (a, a)):
                toks = [['open', a], ['open', b], ['text', 'x'],
                        ['end', e1], ['end', e2]]
                yield {'kind': 'pair', 'toks': toks, 'style': [0]}
        for c in CONT:
            yield {'kind': 'cont', 'style': [0], 'toks': [
                ['open', a], ['text', 'x'], ['cont', c], ['text', 'y'],
                ['end', a]]}
            yield {'kind': 'cont', 'style': [1], 'toks': [
                ['open', 'if'], ['open', a], ['text', 'x'], ['cont', c],
                ['text', 'y'], ['end', a], ['end', 'if']]}
            yield {'kind': 'cont', 'style': [0], 'toks': [
                ['open', 'try'], ['open', a], ['text', 'x'], ['cont', c],
                ['text', 'y'], ['end', a], ['cont', 'except'],
                ['end', 'try']]}
    for t in TRUNC:
        for i in range(1, len(t)):
            if t[:i].lstrip().startswith('#') and '#' in t[:i]:
                yield {'kind': 'trunc', 'src': t[:i], 'full': t}
    names = list(OPEN)
    while True:
        sub = rng.sample(names, rng.randint(2, len(names)))
        toks = gen(rng, rng.choice([1, 2, 3, 4, 6]), sub)
        if len(toks) > 60 or depth_of(toks) > 12:
            continue
        for _ in range(rng.choice([0, 1, 1, 2])):
            toks = mutate(rng, toks)
        style = [rng.choice([0, 0, 1, 2]) for _ in range(rng.randint(1, 7))]
        yield {'kind': 'rand', 'toks': toks, 'style': style}


def setup(scratch):
    global Template, ParseError
    from Cheetah.Template import Template
    from Cheetah.Parser import ParseError


def outcome(src):
    try:
        Template.compile(src, cacheCompilationResults=False,
                         keepRefToGeneratedCode=False)
        return 'accepted', ''
    except ParseError as e:
        try:
            r = str(e)
        except Exception as x:
            return 'unprintable', repr(x)
        if 'Line ' not in r or ', column ' not in r:
            return 'unprintable', r
        return 'rejected', r
    except Exception as e:
        return 'crash', '%s: %s' % (type(e).__name__, e)


def check(case):
    if case['kind'] == 'trunc':
        src = case['src']
        ok = None
        # a prefix that already has its opening directive complete is left
        # open: the reference says rejected; shorter ones may be other errors
        got, why = outcome(src)
        first = case['full'].split('\n')[0]
        if src.startswith(first + '\n') and not got == 'rejected':
            return 'block left open at the end is not rejected as a syntax ' \
                'error: %s %s\n%s' % (got, why, src)
        if src == first and got != 'rejected':
            return 'block left open at the end is not rejected as a syntax ' \
                'error: %s %s\n%s' % (got, why, src)
        if got == 'unprintable':
            return 'error cannot be reported: %s\n%s' % (why, src)
        return None
    if case['kind'] == 'fixed':
        src, ok = case['src'], case['ok']
    else:
        ok = reference(case['toks'])
        src = render(case['toks'], case['style'])
    got, why = outcome(src)
    if got == 'unprintable':
        return 'error cannot be reported: %s\n%s' % (why, src)
    if ok is True and got != 'accepted':
        return 'well-nested template rejected: %s %s\n%s' % (
            got, why[:600], src)
    if ok is False and got == 'accepted':
        return 'misnested template accepted:\n%s' % src
    if ok is False and got == 'crash':
        return 'misnested template is not reported as a syntax error: ' \
            '%s\n%s' % (why, src)
    return None
