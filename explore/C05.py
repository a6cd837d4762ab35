"""run-time contract of source positions and error reports"""
import itertools
import re

RULE = ('all positions of texts over letters, LF, CR, CRLF and other control '
        'characters against an independent row/column computation; broken '
        'templates: the report names the place, and moves with it when lines '
        'are put in front')
QUICK_S = 25
THOROUGH_S = 250

ALPHA = ['a', '\n', '\r', '\r\n', ' ', '\t', '\x0b', '\x0c', '\x1c', '\x85',
         '\u2028', '\u2029', '\u0416', 'bc', '#', '$']
BROKEN = ['$f(', '${x', '$x[1', '#if $x\ny', '#end if', '#set $x = ',
          '#def f(\n', '#for $i in\n', "$f('abc", '#foo($x', '#call $f\nx',
          '#else\n', '#try\nx\n#end if\n', '#cache\nx\n', '#filter\n',
          '$x.$', '${ }', '#extends 1x\n', '#import\n', '<% x',
          '#unless\nx\n#end if', 'a $(x', '#attr x', '#block 1\n', '#raw\n$x',
          '#set $x = """abc', '#arg x\n', '#if $a: #for $i in $l#x\n',
          '#set $x = (1, 2\n\n3', '$f(a,\n\n  b', '#end', '#end foo\nbar',
          'x\n  $y(1, ]\n', '#include source=\n', '#def f($a, $b\nx',
          '#slurp\n#end for\nx', '#echo $x(\n', '#repeat\nx\n#end for\n']
PYBAD = ['#set $x = 1 2\n', '$x(1 2)', '#if 1 2\nx\n#end if\n',
         '#for $i in 1 2\nx\n#end for', '#silent 1 2\n', '#attr $x = 1 2\n',
         '#try\nx\n#end try\n', '#break\n', '#assert 1 2\n',
         '#set $x = "line 999, col 5" 1\n', '$x(1 2 "line 98765, col 3")']


# the bracket left open, the token that is wrong
PLACE = {'$f(': (1, 3), '$x[1': (1, 3), "$f('abc": (1, 4),
         '#filter\n': (1, 8), '#extends 1x\n': (1, 10),
         '#block 1\n': (1, 8), '#set $x = """abc': (1, 11),
         '#set $x = (1, 2\n\n3': (1, 11), '$f(a,\n\n  b': (1, 3),
         '#end foo\nbar': (1, 6), 'x\n  $y(1, ]\n': (2, 10),
         '#echo $x(\n': (1, 9)}


def lines_of(src):
    rows = []
    bol = 0
    i = 0
    while i < len(src):
        if src[i] == '\r' and src[i + 1:i + 2] == '\n':
            rows.append((bol, src[bol:i]))
            i += 2
            bol = i
        elif src[i] in '\r\n':
            rows.append((bol, src[bol:i]))
            i += 1
            bol = i
        else:
            i += 1
    rows.append((bol, src[bol:]))
    return rows


def rowcol(rows, pos):
    for i in range(len(rows) - 1, -1, -1):
        if rows[i][0] <= pos:
            return i + 1, pos - rows[i][0] + 1


def setup(scratch):
    global SR, Template, ParseError
    import Cheetah.SourceReader as SR
    from Cheetah.Template import Template
    from Cheetah.Parser import ParseError
    # where the parser stood when it found the error
    init = ParseError.__init__

    def found(self, stream, *args, **kw):
        at = stream.pos()
        self._found_at = at if at < len(stream) else len(stream) - 1
        init(self, stream, *args, **kw)
    ParseError.__init__ = found


def cases(rng, tier):
    for n in range(5):
        for t in itertools.product(['a', '\n', '\r'], repeat=n):
            yield {'kind': 'pos', 'src': ''.join(t)}
    for b in BROKEN:
        yield {'kind': 'err', 'src': b, 'pre': ''}
        for pre in ('x\n', 'x\r\ny\r\n', '\r', 'a\x0cb\u2028c\n\n',
                    'x\ry\r\nz\n'):
            yield {'kind': 'err', 'src': b, 'pre': pre}
        for lead, tail in (('a\tb ', '\t\n\tx '), ('\t', '  \n')):
            yield {'kind': 'err', 'src': lead + b + tail, 'pre': 'x \n'}
    for b in PYBAD:
        for tail in ('', 'line 999, col 5\n', '\nline 1, col 1\n'):
            yield {'kind': 'py', 'src': b + tail}
    while True:
        r = rng.random()
        src = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(0, 40)))
        if r < .6:
            yield {'kind': 'pos', 'src': src}
        elif r < .9:
            pre = ''.join(rng.choice(['a', 'bc ', '\n', '\t', '\r', '\r\n',
                                      '\x0c', '\u2028', '\x85', ' '])
                          for _ in range(rng.randint(0, 15)))
            pre += rng.choice(['\n', '\r\n', '\r'])
            lead = rng.choice(['', '\t', 'a\tb ', '  ', '\x0c', 'q ' * 50])
            tail = rng.choice(['', '', '\t', '  \n', ' c\td\n\ty \n'])
            yield {'kind': 'err', 'src': lead + rng.choice(BROKEN) + tail,
                   'pre': pre}
        else:
            t = ''.join(rng.choice(BROKEN + ['a', '\n', '\r\n', '$x ', ' '])
                        for _ in range(rng.randint(2, 6)))
            yield {'kind': 'err', 'src': t, 'pre': 'q\r'}


def failure(src):
    """-> (row, col, report, stream) of the parse error, or None"""
    try:
        Template.compile(src, cacheCompilationResults=False,
                         keepRefToGeneratedCode=False)
    except ParseError as e:
        r = str(e)
        m = re.search(r'^Line (\d+), column (\d+)', r, re.M)
        if not m:
            return 'no line and column in the report:\n' + r
        return int(m.group(1)), int(m.group(2)), r, e
    except RecursionError:
        raise
    except Exception:
        return None
    return None


def context_lines(report, rows):
    """every numbered line of the report is that row of the source"""
    ls = report.split('\n')
    heads = [i for i, t in enumerate(ls) if t.startswith('----|---')]
    if not heads:
        return 'no source lines are shown'
    for t in ls[heads[0] + 1:]:
        m = re.match(r'(\d+) *\|', t)
        if not m:
            if t.strip() == '^':
                continue
            break
        n = int(m.group(1))
        if not 1 <= n <= len(rows) or t != '%-4d|%s' % (n, rows[n - 1][1]):
            return 'line %d is shown as %r' % (n, t)
    return None


def check(case):
    src = case['src']
    if case['kind'] == 'pos':
        rows = lines_of(src)
        r = SR.SourceReader(src)
        if list(r.splitlines()) != [x[1] for x in rows]:
            return 'rows of %r: %r' % (src, r.splitlines())
        seen = {}
        for p in range(len(src) + 1):
            exp = rowcol(rows, p)
            got = tuple(r.getRowCol(p))
            if got != exp:
                return 'position %d of %r: %r, expected %r' % (p, src, got,
                                                               exp)
            if got in seen:
                return 'positions %d and %d of %r are both %r' % (
                    seen[got], p, src, got)
            seen[got] = p
            if r.lineNum(p) != exp[0] - 1:
                return 'lineNum(%d) of %r: %r' % (p, src, r.lineNum(p))
            row, col, line = r.getRowColLine(p)
            if (row, col) != exp or line != rows[exp[0] - 1][1]:
                return 'getRowColLine(%d) of %r: %r' % (p, src, (
                    row, col, line))
            if r.getLine(p) != rows[exp[0] - 1][1]:
                return 'getLine(%d) of %r: %r' % (p, src, r.getLine(p))
            r.setPos(p)
            if tuple(r.getRowCol()) != exp or r.pos() != p or \
                    tuple(r.getRowColLine()[:2]) != exp:
                return 'at %d of %r: %r' % (p, src, r.getRowCol())
        return None
    if case['kind'] == 'py':
        x = failure(src)
        if isinstance(x, str):
            return x
        return None
    pre = case['pre']
    a = failure(src)
    b = failure(pre + src)
    if isinstance(a, str) or isinstance(b, str):
        return '%r: %s' % (pre + src, a if isinstance(a, str) else b)
    if src in PLACE and (a is None or a[:2] != PLACE[src]):
        return 'error of %r at %r, expected at %r' % (
            src, a and a[:2], PLACE[src])
    for s, x in ((src, a), (pre + src, b)):
        if x is None or 'Python code which Cheetah generated' in x[2]:
            continue
        rows = lines_of(s)
        st = x[3].stream
        if st.src() == s:
            exp = rowcol(rows, st.pos())
            if exp != x[:2]:
                return 'error at position %d of %r reported as %r' % (
                    st.pos(), s, x[:2])
        if not 1 <= x[0] <= len(rows):
            return 'no such line: %r in %r' % (x[:2], s)
        if st.src() == s and x[3].lineno is None:
            at = getattr(x[3], '_found_at', None)
            if at is not None and s:
                exp = rowcol(rows, max(at, 0))
                if exp != x[:2]:
                    return 'error found at position %d of %r reported as ' \
                        '%r' % (at, s, x[:2])
        m = context_lines(x[2], rows)
        if m:
            return 'report of %r: %s\n%s' % (s, m, x[2])
        # the row is shown, with the caret below the column
        shown = '%-4d|%s\n%s^\n' % (x[0], rows[x[0] - 1][1],
                                    ' ' * (4 + x[1]))
        if shown not in x[2]:
            return 'report of %r does not show line %d, column %d:\n%s' % (
                s, x[0], x[1], x[2])
    if a is not None and b is not None and not (
            'Python code which Cheetah generated' in a[2] + b[2]):
        k = len(lines_of(pre)) - 1
        if pre.endswith('\r') and src.startswith('\n'):
            return None
        if (a[0] + k, a[1]) != b[:2]:
            return 'error of %r at %r, but of %r at %r' % (
                src, a[:2], pre + src, b[:2])
    elif (a is None) != (b is None) and not pre.strip('abc\t\r\n\x0cxyzq '):
        pass
    return None
