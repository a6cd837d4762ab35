"""run-time contract of the output filters and the HTML encoder"""
import sys

PURE = None
RULE = ('filters applied directly and through rendered templates to texts '
        'over markup, entity fragments, white space, controls, non-ASCII and '
        'to non-text values; distinct (filter, value, arguments) triples')
QUICK_S = 20
THOROUGH_S = 200

WS = ''.join(c for c in map(chr, range(0x3001)) if c.isspace())
FRAG = ['&', '<', '>', '"', "'", '&amp;', '&lt;', '&gt;', '&quot;', 'amp;',
        'lt;', 'gt;', 'quot;', '&amp', '&#38;', '#', ';', ' ', '  ', '\t',
        '\n', '\n\n', '\r\n', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\xa0',
        '\u2028', '\u3000', 'a', 'bc', '7', '\xe9', '\u0416', '\U0001f600',
        '\0', '\ud800', '$', '%s', '\\', '&nbsp;', '(', '/']
ALSO = [' ', '"', "'", '(', ')', '/', '\n', '\t', '\xe9', '\u0416', '=', '`',
        '%', '$', '\\', '\U0001f600', '-', '+']
VALUES = ['None', '0', '0.0', 'False', 'True', '[]', '{}', '()', "''", '-1',
          '12', '3.25', "[1, 'a<b']", "{'k': '&'}", "b'bytes<&>'", 'set()',
          '1j', 'object0', 'falsy', 'objnone']


class Obj(object):
    def __str__(self):
        return 'obj <&> \n x '


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __str__(self):
        return ' falsy & '


class StrSub(str):
    pass


class EqNone(object):
    def __eq__(self, o):
        return True
    __hash__ = None

    def __str__(self):
        return '<eq>'


def value(spec):
    if spec[0] == 's':
        return spec[1]
    if spec[0] == 'sub':
        return StrSub(spec[1])
    v = spec[1]
    return {'object0': Obj, 'falsy': Falsy, 'objnone': EqNone}[v]() \
        if v in ('object0', 'falsy', 'objnone') else eval(v)


def setup(scratch):
    global F, enc, dec, Template
    import Cheetah.Filters as F_
    from Cheetah.Utils.htmlEncode import htmlEncode
    from Cheetah.Utils.htmlDecode import htmlDecode
    from Cheetah.Template import Template as T
    F, enc, dec, Template = F_, htmlEncode, htmlDecode, T


def rtext(rng):
    return ''.join(rng.choice(FRAG) for _ in range(
        rng.choice([0, 1, 2, 3, 5, 8, 13, 40])))


FILTERS = ['Filter', 'RawOrEncodedUnicode', 'EncodeUnicode', 'MaxLen',
           'WebSafe', 'Strip', 'StripSqueeze']


def cases(rng, tier):
    for f in FILTERS:
        for v in VALUES:
            yield {'kind': f, 'v': ['e', v]}
        for a in FRAG:
            for b in FRAG:
                yield {'kind': f, 'v': ['s', a + b]}
    for a in FRAG:
        for b in FRAG:
            yield {'kind': 'html', 'v': ['s', a + b]}
    for c in ALSO:
        for a in FRAG:
            yield {'kind': 'WebSafe', 'v': ['s', a + c + a], 'also': c}
            yield {'kind': 'WebSafe', 'v': ['s', a + c + c], 'also':
                   rng.choice(ALSO) + c}
    for n in range(6):
        for t in ('', 'a', 'ab', 'abc', 'abcde', 'abcdefgh', '\u0416' * 7):
            yield {'kind': 'MaxLen', 'v': ['s', t], 'maxlen': n}
    while True:
        k = rng.choice(FILTERS + ['html', 'tmpl', 'tmpl'])
        v = ['s', rtext(rng)]
        if rng.random() < .1:
            v = ['sub', v[1]]
        if rng.random() < .1 and k != 'html':
            v = ['e', rng.choice(VALUES)]
        d = {'kind': k, 'v': v}
        if k == 'tmpl':
            d['f'] = rng.choice(FILTERS)
            d['n'] = rng.randint(1, 3)
            d['via'] = rng.choice(['directive', 'ctor', 'obj'])
        f = d.get('f', k)
        if f == 'WebSafe' and rng.random() < .6:
            d['also'] = ''.join(rng.choice(ALSO)
                                for _ in range(rng.randint(0, 4)))
        if f == 'MaxLen' and rng.random() < .8:
            d['maxlen'] = rng.randint(0, 12)
        yield d


def text(v):
    if v is None:
        return ''
    return str(v)


def ref(f, v, also=None, maxlen=None):
    t = text(v)
    if f == 'MaxLen':
        return t if maxlen is None else t[:maxlen]
    if f == 'WebSafe':
        out = []
        for c in t:
            if c == '&':
                c = '&amp;'
            elif c == '<':
                c = '&lt;'
            elif c == '>':
                c = '&gt;'
            elif also and c in also:
                c = {' ': '&nbsp;', '"': '&quot;'}.get(c, '&#%d;' % ord(c))
            out.append(c)
        return ''.join(out)
    if f == 'Strip':
        return '\n'.join(x.strip() for x in t.split('\n'))
    if f == 'StripSqueeze':
        words, cur = [], ''
        for c in t:
            if c.isspace():
                if cur:
                    words.append(cur)
                cur = ''
            else:
                cur += c
        if cur:
            words.append(cur)
        return ' '.join(words)
    return t


def check(case):
    k = case['kind']
    v = value(case['v'])
    if k == 'html':
        e = enc(v)
        exp = v
        for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'),
                     ('"', '&quot;')):
            exp = exp.replace(a, b)
        if e != exp:
            return 'htmlEncode(%r) = %r, expected %r' % (v, e, exp)
        d = dec(e)
        if d != v:
            return 'htmlDecode(htmlEncode(%r)) = %r' % (v, d)
        return None
    kw = {x: case[x] for x in ('also', 'maxlen') if x in case}
    if k == 'tmpl':
        return tmpl(case, v, kw)
    exp = ref(k, v, **kw)
    try:
        got = getattr(F, k)(None).filter(v, **kw)
    except Exception as e:
        return '%s().filter(%r, **%r) raises %r, expected %r' % (
            k, v, kw, e, exp)
    if got != exp or not isinstance(got, str):
        return '%s().filter(%r, **%r) = %r, expected %r' % (k, v, kw, got,
                                                            exp)
    if k == 'WebSafe' and any(c not in '&#;' and not c.isalnum()
                              for c in kw.get('also', '')) is None:
        pass
    return None


_c = {}


def tmpl(case, v, kw):
    f, n, via = case['f'], case['n'], case['via']
    args = ''
    if 'also' in kw:
        args = ', also=$args'
    if 'maxlen' in kw:
        args = ', maxlen=$args'
    ph = '${v%s}|' % args
    key = (f, n, via, args)
    if key not in _c:
        if via == 'directive':
            src = '#filter %s\n%s#end filter' % (f, ph * n)
        else:
            src = ph * n
        _c[key] = Template.compile(src, cacheCompilationResults=False)
    ctor = {}
    if via == 'ctor':
        ctor['filter'] = f
    elif via == 'obj':
        ctor['filter'] = getattr(F, f)
    t = _c[key](searchList=[{'v': v, 'args': kw.get('also', kw.get(
        'maxlen'))}], **ctor)
    exp = (ref(f, v, **kw) + '|') * n
    try:
        got = t.respond()
    except Exception as e:
        return 'rendering with filter %s (%s) of %r raises %r' % (f, via, v,
                                                                  e)
    if got != exp:
        return 'rendering with filter %s (%s) of %r, %r gives %r, expected ' \
            '%r' % (f, via, v, kw, got, exp)
    return None
