"""Loop contracts for the C sources: the clauses are inserted behind the head
of the loop they belong to, nothing of the text is dropped or rewritten."""
import re

GH = EG = 'T.ob_refcnt, Z'


def _chunk(i):
    o = '__CPROVER_POINTER_OFFSET(nameChunks[%d])' % i
    return ('(currChunkNum <= %d || (__CPROVER_same_object(nameChunks[%d], '
            'nameCopy) && %s <= N_end && (%s != N_p + 1 || N_c0 == 46)'
            ' && %s < __CPROVER_POINTER_OFFSET(currChunk)%s))' % (
                i, i, o, o, o,
                ' && %s == 0' % o if i == 0 else
                ' && __CPROVER_POINTER_OFFSET(nameChunks[%d]) < %s'
                % (i - 1, o)))


LOOPS = {
    # (file, function, number of the loop): (contract, ghost code after it)
    ('_namemapper.c', 'getNameChunks', 0): (
        '__CPROVER_assigns(c, currChunk, nameCopy, currChunkNum, g_err, '
        '__CPROVER_object_whole(nameCopy), '
        '__CPROVER_object_upto(nameChunks, 15 * sizeof(char *))) '
        '__CPROVER_loop_invariant(g_err == 0 && currChunkNum >= 0 && '
        'currChunkNum <= 13 && '
        '__CPROVER_same_object(nameCopy, __CPROVER_loop_entry(nameCopy)) && '
        '__CPROVER_same_object(currChunk, nameCopy) && '
        '__CPROVER_POINTER_OFFSET(nameCopy) <= N_end && '
        '__CPROVER_POINTER_OFFSET(currChunk) <= '
        '__CPROVER_POINTER_OFFSET(nameCopy) && '
        '__CPROVER_loop_entry(nameCopy)[N_end] == 0) '
        '__CPROVER_loop_invariant(%s) '
        '__CPROVER_loop_invariant((__CPROVER_POINTER_OFFSET(currChunk) == 0) '
        '== (currChunkNum == 0)) '
        '__CPROVER_loop_invariant(N_p >= N_end || '
        '__CPROVER_loop_entry(nameCopy)[N_p] == '
        '(N_c0 == 46 && N_p < __CPROVER_POINTER_OFFSET(nameCopy) ? 0 : N_c0))'
        ' __CPROVER_loop_invariant(N_p >= N_end || '
        '__CPROVER_POINTER_OFFSET(currChunk) != N_p + 1 || N_c0 == 46) '
        '__CPROVER_loop_invariant(N_p >= __CPROVER_POINTER_OFFSET(nameCopy) '
        '|| N_c0 != 46 || __CPROVER_POINTER_OFFSET(currChunk) == N_p + 1 || '
        '%s) '
        '__CPROVER_decreases(N_end - __CPROVER_POINTER_OFFSET(nameCopy)) ' % (
            ' && '.join(_chunk(i) for i in range(13)),
            ' || '.join('(currChunkNum > %d && __CPROVER_POINTER_OFFSET('
                        'nameChunks[%d]) == N_p + 1)' % (i, i)
                        for i in range(1, 13))), ''),
    ('_namemapper.h', 'createNameCopyAndChunks', 0): (
        '__CPROVER_assigns(tmpPntr1, tmpPntr2, '
        '__CPROVER_object_whole(nameCopy)) '
        '__CPROVER_loop_invariant(__CPROVER_same_object(tmpPntr1, name) && '
        '__CPROVER_same_object(tmpPntr2, nameCopy) && '
        '__CPROVER_POINTER_OFFSET(tmpPntr1) == '
        '__CPROVER_POINTER_OFFSET(tmpPntr2) && '
        '__CPROVER_POINTER_OFFSET(tmpPntr2) <= N_len) '
        '__CPROVER_decreases(N_len - __CPROVER_POINTER_OFFSET(tmpPntr2)) ',
        ' N_end = (tmpPntr2 - nameCopy) - 1;'),
    ('_namemapper.c', 'namemapper_valueFromSearchList', 0): None,
    ('_namemapper.c', 'namemapper_valueFromFrameOrSearchList', 0): None,
}
_IT = ('__CPROVER_assigns(nameSpace, theValue, %s) '
       '__CPROVER_loop_invariant(g_err == 0 && OBJ(iterator) && '
       'iterator == E_iter && ALIVE(iterator) && '
       'theValue == NULL && T.ob_refcnt == T_borrowed + OWN(iterator)) '
       '__CPROVER_loop_invariant(E_phase == 2 && E_tested == 1 && !E_hit && '
       '!E_looked && !E_stop) ' % EG)
for _k in list(LOOPS):
    if LOOPS[_k] is None:
        LOOPS[_k] = (_IT, '')


class NoLoop(Exception):
    pass


def _match(t, i):
    d = 0
    q = None
    while i < len(t):
        c = t[i]
        if q:
            if c == '\\':
                i += 1
            elif c == q:
                q = None
        elif c in '\'"':
            q = c
        elif c == '(':
            d += 1
        elif c == ')':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise NoLoop('unbalanced')


def blank(t):
    """comments replaced by spaces"""
    def sp(m):
        s = m.group(0)
        if s[0] in '"\'':
            return s
        return re.sub(r'[^\n]', ' ', s)
    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*',
                  sp, t, flags=re.S)


def _span(t, name, f):
    """the text of the definition of a function or macro"""
    if f.endswith('.h'):
        m = re.search(r'#define\s+%s\b' % name, t)
        if not m:
            raise NoLoop(name)
        i = m.end()
        while True:
            j = t.find('\n', i)
            if j < 0:
                return m.start(), len(t)
            if t[j - 1] != '\\':
                return m.start(), j
            i = j + 1
    m = re.search(r'^[^\n;{}#]*\b%s\s*\([^;{}]*\)\s*\{' % name, t, re.M)
    if not m:
        raise NoLoop(name)
    d, i = 1, m.end()
    q = None
    while d and i < len(t):
        c = t[i]
        if q:
            if c == '\\':
                i += 1
            elif c == q:
                q = None
        elif c in '"\'':
            q = c
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
        i += 1
    return m.end(), i


def annotate(text, fname, skip=()):
    """text with the loop contracts of this file; the loops annotated"""
    done = []
    missing = []
    for (f, fn, n), (inv, after) in LOOPS.items():
        if f != fname or fn in skip:
            continue
        t = blank(text)
        try:
            a, b = _span(t, fn, f)
            heads = [m for m in re.finditer(r'\b(while|for)\s*\(', t[a:b])]
            if len(heads) <= n:
                raise NoLoop(fn)
            i = a + heads[n].end() - 1
            j = _match(t, i) + 1
            ins = ' ' + inv
            if after:
                k = t.index(';', j)
                if t[j:k].strip():
                    raise NoLoop(fn)
                text = text[:j] + ins + text[j:k + 1] + after + text[k + 1:]
            else:
                text = text[:j] + ins + text[j:]
            done.append(fn)
        except (NoLoop, ValueError):
            missing.append(fn)
    return text, done, missing
