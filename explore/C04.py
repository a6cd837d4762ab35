"""run-time contract: literal text is rendered exactly"""
import json
import re
PURE = None
RULE = ('templates assembled from literal texts (quotes, backslash runs, all '
        'newline styles, controls, non-ASCII, lone surrogates, start tokens '
        'that start nothing), escaped start tokens, placeholders, inline and '
        'own-line directives, comments and every kind of block body, also '
        'with other start tokens; the expected output is assembled beside')
QUICK_S = 45
THOROUGH_S = 300

LIT = ["'", '"', "'''", '"""', '\\', '\\\\', '\\n', '\\\\n', '\\\\\\n',
       '\\012', '\\x41', '\\u0041', '\\N', '\n', '\r', '\r\n', '\n\n', ' ',
       '\t', '    ', '\x00', '\x01', '\x07', '\x0b', '\x0c', '\x1b', '\x1c',
       '\x7f', '\x85', '\xa0', '\xad', '\u2028', '\u2029', '\ufeff',
       '\u200e', '\xe9', '\u0416', '\u6f22', '\U0001f600', '\ud800',
       '\udfff', 'a', 'n', '012', 'u', 'r', 'b', 'f', '{x}', '%s', '%(a)s',
       '%', '$5', '$ ', '$.', '$)', '$%', '#1', '#.', '#(', '#!', '%>', '@',
       ')', "')", '")', "''')", 'write(', '_v', 'pass', ';', ':', '*#',
       'None', '{', '}', '<', '>', '&', '&amp;', '-->', '\\t', '\\r', '\\"',
       "\\'", '0', '1', '12', '\x1a', '\x04', 'x' * 70, 'if', 'end']
ESC = [('\\$x', '$x'), ('\\#if', '#if'), ('\\#', '#'), ('\\$', '$'),
       ('\\\\$x', '\\$x'), ('\\${x}', '${x}'), ('\\#end if', '#end if'),
       ('\\$!x', '$!x'), ('\\#set $', '#set $'), ('\\#slurp', '#slurp')]
ESC = [e for e in ESC if e[0] != '\\#set $']
BODIES = ['if', 'else', 'for', 'def', 'call', 'capture', 'cache', 'filter',
          'raw', 'try', 'block', 'ifl', 'forl', 'defl', 'callb', 'unless',
          'while', 'repeat', 'closure', 'iflw', 'rawl', 'errc',
          'rawi']


def setup(scratch):
    global T
    from Cheetah.Template import Template as T_
    T = T_


def text(rng, n=None):
    n = n or rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
    return ''.join(rng.choice(LIT) for _ in range(n))


def piece(rng, depth):
    k = rng.randrange(100)
    if k < 45:
        return ['t', text(rng)]
    if k < 53:
        return ['e', rng.randrange(len(ESC))]
    if k < 65:
        return ['p', rng.choice(['$v', '${v}', '$(v)', '$[v]', '$!v', '$f(1)',
                                 '$f("$v")'])]
    if k < 76:
        return ['i', rng.choice(['set', 'silent', 'comment', 'slurp', 'pass',
                                 'assert', 'eol', 'ifx', 'mcomment',
                                 'set2'])]
    if k < 86 or not depth:
        return ['l', rng.choice(['set', 'silent', 'comment', 'slurp',
                                 'import', 'mset', 'attr', 'mcomment',
                                 'settings', 'seti', 'setend']),
                rng.choice(['', '  ', '\t', ' \t ']),
                rng.choice(['\n', '\r\n', '\r'])]
    return ['b', rng.choice(BODIES), tree(rng, depth - 1)]


def tree(rng, depth):
    return [piece(rng, depth) for _ in range(rng.choice([1, 1, 2, 3, 4]))]


class Build:
    def __init__(self):
        self.n = 0

    def guard(self, s):
        """the text so far must not run into what comes next"""
        return s and s[-1] in '\\$#<'

    def join(self, tr, raw=False, start=True):
        """-> (source, output); both end so that anything may follow"""
        s = o = ''
        for p in tr:
            a, b, bol = self.emit(p, raw)
            if a is None:
                continue
            if bol and (s[-1] not in '\r\n' if s else not start):
                g = '.\n' if s[-1:] in ('\\', '$', '#', '<') else '\n'
                s += g
                o += g
            elif s and s[-1] in '\\$#<' and not bol and p[0] != 't':
                s += '.'
                o += '.'
            elif p[0] == 't' and s and s[-1] in '$#<\\':
                s += '.'
                o += '.'
            if p[0] == 'i' and not raw:
                s += '|'
                o += '|'
            if s.endswith('\r') and a.startswith('\n') and \
                    getattr(self, 'gobbled', 0):
                s += '.'
                o += '.'
            self.gobbled = 0
            if bol and p[0] == 'l':
                self.gobbled = 1
            if s.endswith('\r') and a.startswith('\n') and p[0] != 't':
                s += '.'
                o += '.'
            s += a
            o += b
        if s and s[-1] in '\\$#<' or p[0] != 't':
            s += '.'
            o += '.'
        self.gobbled = 0
        return s, o

    def emit(self, p, raw):
        k = p[0]
        if k == 't':
            t = p[1]
            for a, b in (('$$', '$.$'), ('##', '#.#'), ('#*', '#.*'),
                         ('\\$', '\\.$'), ('\\#', '\\.#'), ('<%', '<.%')):
                t = t.replace(a, b)
            for i in range(3):
                t = neutral(t)
            return t, t, False
        if k == 'e':
            a, b = ESC[p[1]]
            return (a, a if raw else b, False)
        if raw:
            return None, None, False
        if k == 'p':
            return p[1] + '~', 'V~', False
        if k == 'i':
            v = p[1]
            return {'set': ('#set $z = 1#', ''),
                    'set2': ('#set $z = "a\'\\n"#', ''),
                    'silent': ('#silent $f(1)#', ''),
                    'comment': ('## some \' " \\ $ text\n', '\n'),
                    'mcomment': ('#* some \' " \\ $ \n text *#', ''),
                    'slurp': ('#slurp\n', ''), 'eol': ('#\n', ''),
                    'pass': ('#pass#', ''), 'assert': ('#assert True#', ''),
                    'ifx': ("#if 1 then 'q\"' else 2#", "q\"")}[v] + (False,)
        if k == 'l':
            ind, e = p[2] if p[1] != 'setend' else '', p[3]
            d = {'set': '#set $z = 1', 'silent': '#silent $f(1)',
                 'comment': '## c \' $', 'slurp': '#slurp',
                 'import': '#import os', 'mset': '#set $z = [1,%s  2]' % e,
                 'attr': '#attr $aa%d = 1' % self.n, 'seti':
                 '#set $z = "# $v \\" "', 'setend': '#set $z = 1 ## c',
                 'mcomment': '#* a%sb *#' % e,
                 'settings': '#compiler-settings%suseFilters = True%s'
                 '#end compiler-settings' % (e, e)}[p[1]]
            self.n += 1
            return ind + d + e, '', True
        self.n += 1
        n = self.n
        b = p[1]
        d = b in ('def', 'defl', 'closure')
        self.indef = getattr(self, 'indef', 0) + d
        s, o = self.join(p[2], b in ('raw', 'rawl', 'rawi') or raw,
                         b in ('ifl', 'iflw', 'rawl', 'forl', 'defl'))
        depth = self.indef
        self.indef -= d
        if s[:1] in '#*' and b not in (
                'ifl', 'iflw', 'rawl', 'forl', 'defl'):
            s, o = '.' + s, '.' + o
        if b == 'if':
            return '|#if $t#' + s + '#end if#.', '|' + o + '.', False
        if b == 'unless':
            return '|#unless $f0#' + s + '#end unless#.', '|' + o + '.', False
        if b == 'else':
            return '|#if $f0#no#else#' + s + '#end if#.', '|' + o + '.', False
        if b == 'for':
            return ('|#for $i in [1, 2]#' + s + '#end for#.',
                    '|' + o + o + '.', False)
        if b == 'repeat':
            return '|#repeat 2#' + s + '#end repeat#.', \
                '|' + o + o + '.', False
        if b == 'while':
            return ('|#set $w%d = 2#|#while $w%d#' % (n, n) + s +
                    '#set $w%d -= 1#.#end while#.' % n, '||' + (o + '.') * 2 + '.', False)
        if d and depth > 1:
            return None, None, False
        if b == 'def':
            return ('|#def m%d#%s#end def#$m%d()~' % (n, s, n), '|' + o + '~', False)
        if b == 'block':
            return ('|#block k%d#%s#end block#.' % (n, s), '|' + o + '.',
                    False)
        if b == 'closure':
            return None, None, False
        if b == 'call':
            return '|#call $ident#' + s + '#end call#.', '|' + o + '.', False
        if b == 'callb':
            return ('|#call $kw##arg p#' + s + '#end call#.',
                    '|' + o + '.', False)
        if b == 'capture':
            return ('|#capture c%d#%s#end capture#$c%d~' % (n, s, n),
                    '|' + o + '~', False)
        if b == 'cache':
            return '|#cache#' + s + '#end cache#.', '|' + o + '.', False
        if b == 'filter':
            return '|#filter Filter#' + s + '#end filter#.', \
                '|' + o + '.', False
        if b == 'rawi':
            return ('.\n   #raw#' + s + '.\n #end raw\n',
                    '.\n   ' + o + '.\n', False)
        if b == 'raw':
            if not re.split('[\r\n]', s)[-1].strip():
                # white space between the beginning of the line and the end
                # tag belongs to the tag
                s, o = s + '.', o + '.'
            return '|#raw#' + s + '#end raw#.', '|' + o + '.', False
        if b == 'try':
            return '|#try#' + s + '#except#no#end try#.', \
                '|' + o + '.', False
        if b == 'errc':
            return ('|#errorCatcher Echo#' + s + '.',
                    '|' + o + '.', False)
        # on lines of their own
        if s[:1] == '\n':
            s, o = '.' + s, '.' + o
        if b == 'ifl':
            return '#if $t\n' + s + '\n#end if\n', o + '\n', True
        if b == 'iflw':
            return '  #if $t\r\n' + s + '\n\t#end if\r\n', o + '\n', True
        if b == 'rawl':
            return '#raw\n' + s + '\n#end raw\n', o + '\n', True
        if b == 'forl':
            return ('#for $i in [1, 2]\n' + s + '\n#end for\n',
                    (o + '\n') * 2, True)
        if b == 'defl':
            return ('#def m%d\n%s\n#end def\n$m%d()~' % (n, s, n), o + '\n~',
                    True)
        raise AssertionError(b)


def neutral(t):
    """no start token of the text may start anything, no end-of-line slurp"""
    out = []
    for i, c in enumerate(t):
        nx = t[i + 1:i + 2]
        out.append(c)
        if c == '$' and (nx.isalpha() or nx in '_!{([*' and nx):
            out.append('.')
        if c == '#' and (nx.isalpha() or nx in '@*' and nx or nx in '_' and nx
                         or nx in ' \t\f\r\n' and nx):
            out.append('.')
    return ''.join(out)


TOK = {'cheetahVarStartToken': '@@', 'directiveStartToken': '%%',
       'directiveEndToken': '%%'}


def cases(rng, tier):
    for a in LIT:
        yield {'kind': 'pure', 't': [['t', a]]}
        for b in LIT:
            yield {'kind': 'pair', 't': [['t', a + b]]}
            if rng.random() < .3:
                yield {'kind': 'ph', 't': [['p', '$v'], ['t', a + b],
                                           ['p', '$v']]}
    for b in BODIES:
        for a in LIT:
            yield {'kind': 'body', 't': [['t', 'x'], ['b', b, [['t', a]]],
                                         ['t', a]]}
    for i in ['set', 'silent', 'comment', 'slurp', 'import', 'mset', 'attr',
              'mcomment', 'settings', 'seti', 'setend']:
        for a in rng.sample(LIT, 20):
            yield {'kind': 'line', 't': [['t', a + ' \n'],
                                         ['l', i, '  ', '\n'], ['t', a]]}
    while True:
        k = rng.choice(['tree', 'tree', 'tree', 'tok', 'split', 'code',
                        'long'])
        t = tree(rng, 2)
        if k == 'long':
            t = [['t', text(rng, rng.choice([50, 200, 1000]))]] + t
        yield {'kind': k, 't': t}


def check(case):
    b = Build()
    src, exp = b.join(case['t'])
    kw = {}
    if case['kind'] == 'tok':
        s2 = src
        js = json.dumps(case)
        if '"eol"' in js or '"callb"' in js or '"setend"' in js or '#\n' in src or \
                '@' in src or '%' in src or '#' in strip_toks(case) or \
                '$' in strip_toks(case):
            return 'skip'
        src = s2.replace('$', '@@').replace('#*', '/*').replace('*#', '*/') \
            .replace('##', '//')
        src = src.replace('#', '%%')
        exp = exp.replace('$', '@@').replace('#', '%%')
        exp += '$x #if 1 ${x} #end if'
        src += '$x #if 1 ${x} #end if'
        kw['compilerSettings'] = dict(
            TOK, commentStartToken='//', 
            multiLineCommentStartToken='/*', multiLineCommentEndToken='*/')
    ns = {'v': 'V', 't': True, 'f0': False, 'f': lambda *a: 'V',
          'ident': lambda x: x, 'kw': lambda p: p}
    if case['kind'] == 'code':
        if not src.isascii():
            try:
                src.encode('utf-8')
            except UnicodeError:
                return 'skip'
            src = '#encoding utf-8\n' + src
        code = T.compile(source=src, returnAClass=False, moduleName='mm',
                         className='mm')
        g = {'__name__': 'mm'}
        if isinstance(code, str):
            code = code.encode('utf-8')
        exec(compile(code, 'mm.py', 'exec'), g)
        cls = g['mm']
    else:
        cls = T.compile(source=src, cacheCompilationResults=False, **kw)
    got = cls(searchList=[ns]).respond()
    if got != exp:
        i = 0
        while i < min(len(got), len(exp)) and got[i] == exp[i]:
            i += 1
        return 'source %r\n renders %r\n instead of %r (differs at %d)' % (
            src, got, exp, i)
    return None


def strip_toks(case):
    return repr([p for p in case['t'] if p[0] == 't' or p[0] == 'b'])
