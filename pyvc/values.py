"""Symbolic values of the verifier.

Anything the analysed code builds itself (lists, dicts, instances, closures)
is a *host* Python object that may contain Sym leaves; the path explorer
re-executes the code from scratch for every path, so host mutation is safe.
"""
import z3

ObjSort = z3.DeclareSort('Obj')
StrSort = z3.StringSort()


class SymUse(Exception):
    """a symbolic value reached a host operation that cannot treat it"""


class Sym(object):
    __slots__ = ('kind', 'e', 'meta')

    def __init__(self, kind, e, meta=None):
        self.kind = kind
        self.e = e
        self.meta = meta

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.e)

    # any accidental host use must be loud, never silently wrong
    def __bool__(self):
        raise SymUse('bool() of %r' % (self,))

    def __eq__(self, other):
        raise SymUse('== of %r' % (self,))

    def __ne__(self, other):
        raise SymUse('!= of %r' % (self,))

    def __lt__(self, other):
        raise SymUse('< of %r' % (self,))
    __le__ = __gt__ = __ge__ = __lt__

    __hash__ = None

    def __str__(self):
        raise SymUse('str() of %r' % (self,))

    def __len__(self):
        raise SymUse('len() of %r' % (self,))

    def __iter__(self):
        raise SymUse('iter() of %r' % (self,))


def SInt(e):
    if isinstance(e, str):
        e = z3.Int(e)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return Sym('int', e)


def SReal(e):
    if isinstance(e, str):
        e = z3.Real(e)
    return Sym('real', e)


def SBool(e):
    if isinstance(e, str):
        e = z3.Bool(e)
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Sym('bool', e)


def SStr(e):
    if isinstance(e, str):
        e = z3.String(e)
    if z3.is_string_value(e):
        return pystr(e)
    return Sym('str', e)


def pystr(e):
    """host string of a z3 string literal (z3py already unescapes \\u{..})"""
    return py_of_z3_str(e)


def py_of_z3_str(e):
    s = e.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith('\\u', i) and len(s) >= i + 6 and \
                all(c in '0123456789abcdefABCDEF' for c in s[i+2:i+6]):
            out.append(chr(int(s[i + 2:i + 6], 16)))
            i += 6
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def zstr(s):
    """z3 literal for a host string (backslashes must not be read as escapes)"""
    return z3.StringVal(''.join(
        c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c)
        for c in s))


def SObj(e):
    if isinstance(e, str):
        e = z3.Const(e, ObjSort)
    return Sym('obj', e)


def is_sym(v):
    return isinstance(v, (Sym, SList, SMap))


class Codec(object):
    def __init__(self, name, sort, enc, dec):
        self.name, self.sort, self.enc, self.dec = name, sort, enc, dec


class SList(object):
    """mutable list (or immutable tuple / iterable) of unbounded length,
    backed by a z3 sequence"""
    __slots__ = ('e', 'codec', 'tag')

    def __init__(self, e, codec, tag='list'):
        self.e, self.codec, self.tag = e, codec, tag

    def __repr__(self):
        return '<SList %s>' % self.e

    def __bool__(self):
        raise SymUse('bool of SList')

    def __eq__(self, other):
        raise SymUse('== of SList')
    __hash__ = object.__hash__

    def __iter__(self):
        raise SymUse('iter of SList')


class SMap(object):
    """mutable mapping with unbounded key set: dom: K->Bool, val: K->V"""
    __slots__ = ('dom', 'val', 'kc', 'vc', 'name')

    def __init__(self, dom, val, kc, vc, name='map'):
        self.dom, self.val, self.kc, self.vc, self.name = \
            dom, val, kc, vc, name

    def __repr__(self):
        return '<SMap %s>' % self.name

    def __bool__(self):
        raise SymUse('bool of SMap')

    def __eq__(self, other):
        raise SymUse('== of SMap')
    __hash__ = object.__hash__

    def __iter__(self):
        raise SymUse('iter of SMap')


def has_sym(x, depth=6, seen=None):
    if is_sym(x):
        return True
    if isinstance(x, (str, int, float, bytes, bool, type(None), type)):
        return False
    if getattr(type(x), '_pyvc_opaque', None) is not None:
        if x._pyvc_opaque:
            return True
    if depth <= 0:
        return False
    seen = seen if seen is not None else set()
    if id(x) in seen:
        return False
    seen.add(id(x))
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1, seen) for y in x)
    if isinstance(x, dict):
        return any(has_sym(k, depth - 1, seen) or has_sym(v, depth - 1, seen)
                   for k, v in x.items())
    if isinstance(x, BaseException):
        return has_sym(x.args, depth - 1, seen)
    d = getattr(x, '__dict__', None)
    if isinstance(d, dict) and not isinstance(x, type) \
            and type(x).__module__ not in ('builtins', 'types') \
            and not callable(x):
        return any(has_sym(v, depth - 1, seen) for v in d.values())
    return False
