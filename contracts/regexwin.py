"""Exact decision about a compiled regular expression by finite windows.

A pattern built only from literals, classes, alternation, groups, bounded
repetition and \\Z, without look-behind, of maximal width w, matches at
position p depending on nothing but the next w+1 characters (or the end of
the text), and of a character on nothing but which of the pattern's literals
and class bounds it equals or lies between.  Enumerating every window over one
representative per such class therefore decides the pattern for every text
and position."""
import itertools
import re
import re._parser as sre
from re import _constants as K

_OK = {K.LITERAL, K.NOT_LITERAL, K.IN, K.BRANCH, K.SUBPATTERN, K.MAX_REPEAT,
       K.MIN_REPEAT, K.AT, K.ANY}


def _points(tree, out):
    for op, av in tree:
        if op not in _OK:
            return False
        if op in (K.LITERAL, K.NOT_LITERAL):
            out.update((av, av + 1))
        elif op is K.ANY:
            out.update((10, 11))
        elif op is K.AT:
            if av is not K.AT_END_STRING:
                return False
        elif op is K.IN:
            for o, a in av:
                if o is K.NEGATE:
                    continue
                if o is K.LITERAL:
                    out.update((a, a + 1))
                elif o is K.RANGE:
                    out.update((a[0], a[1] + 1))
                else:
                    return False
        elif op is K.BRANCH:
            if not all(_points(t, out) for t in av[1]):
                return False
        elif op is K.SUBPATTERN:
            if av[1] or av[2] or not _points(av[3], out):
                return False
        elif not _points(av[2], out):
            return False
    return True


def windows(pat, extra='', limit=60000):
    """-> list of (window, end or None) over all windows, or None when the
    pattern is outside the decidable form"""
    if not isinstance(pat, re.Pattern) or not isinstance(pat.pattern, str) \
            or pat.flags & ~re.UNICODE:
        return None
    t = sre.parse(pat.pattern, pat.flags)
    pts = {0}
    if not _points(t, pts):
        return None
    for c in extra:
        pts.update((ord(c), ord(c) + 1))
    lo, hi = t.getwidth()
    if hi > 4:
        return None
    reps = [chr(p) for p in sorted(pts) if p < 0x110000 and
            not 0xd800 <= p < 0xe000]
    if len(reps) ** (hi + 1) > limit:
        return None
    out = []
    for n in range(hi + 2):
        for w in itertools.product(reps, repeat=n):
            w = ''.join(w)
            m = pat.match(w)
            out.append((w, None if m is None else m.end(), n <= hi))
    return out


def is_line_end_or_end(pat):
    """does the pattern match exactly CRLF, CR, LF (CRLF as one) or, at the
    very end, the empty text?"""
    ws = windows(pat, '\r\n')
    if ws is None:
        return False
    for w, end, whole in ws:
        # a window shorter than the full width is the whole rest of the text
        exp = 2 if w.startswith('\r\n') else 1 if w[:1] in ('\r', '\n') and \
            w else 0 if not w else None
        if end != exp:
            return False
    return True
