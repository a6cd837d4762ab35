"""Models of Python built-ins on symbolic values.

Each model here is an assumption about CPython (listed in the evidence as
'models'); they are cross-checked against CPython by selftest.py."""
import ast
import builtins
import types
import z3

from .values import *  # noqa
from .core import PathEnd, Unsupported
from .interp import (PyRaise, VList, AbsIter, Closure, ModelMethod, FModel,
                     Poison, SExc, kind_of, _BIN, _CMP)

# ------------------------------------------------------------------- codecs
objOfStr = z3.Function('objOfStr', StrSort, ObjSort)
objOfInt = z3.Function('objOfInt', z3.IntSort(), ObjSort)
objOfBool = z3.Function('objOfBool', z3.BoolSort(), ObjSort)


def term(v):
    if isinstance(v, Sym):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(v)
    if isinstance(v, str):
        return zstr(v)
    raise Unsupported('no term for %s' % type(v).__name__)


def sterm(v):
    if isinstance(v, str):
        return zstr(v)
    if isinstance(v, Sym) and v.kind == 'str':
        return v.e
    raise Unsupported('string expected, got %s' % kind_of(v))


def iterm(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Sym) and v.kind == 'int':
        return v.e
    if isinstance(v, Sym) and v.kind == 'bool':
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('int expected, got %s' % kind_of(v))


def _encobj(v):
    if isinstance(v, Sym):
        if v.kind == 'obj':
            return v.e
        if v.kind == 'str':
            return objOfStr(v.e)
        if v.kind == 'int':
            return objOfInt(v.e)
        if v.kind == 'bool':
            return objOfBool(v.e)
    if isinstance(v, str):
        return objOfStr(zstr(v))
    if v is None:
        return NONE
    if isinstance(v, bool):
        return objOfBool(z3.BoolVal(v))
    if isinstance(v, int):
        return objOfInt(z3.IntVal(v))
    raise Unsupported('cannot embed %s into Obj' % type(v).__name__)


NONE = z3.Const('None_', ObjSort)

CODECS = {
    'str': Codec('str', StrSort, sterm, SStr),
    'int': Codec('int', z3.IntSort(), iterm, SInt),
    'bool': Codec('bool', z3.BoolSort(), term, SBool),
    'obj': Codec('obj', ObjSort, _encobj, SObj),
}


def rterm(v):
    if isinstance(v, Sym) and v.kind == 'real':
        return v.e
    if isinstance(v, Sym) and v.kind == 'int':
        return z3.ToReal(v.e)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return z3.RealVal(v)
    raise Unsupported('number expected, got %s' % kind_of(v))


CODECS['real'] = Codec('real', z3.RealSort(), rterm, SReal)
_BYNAME = dict(CODECS)
_TUP = {}


def register_codec(c):
    _BYNAME[c.name] = c


def codec_by_name(n):
    return _BYNAME[n]


def tuple_codec(kinds):
    if kinds in _TUP:
        return _TUP[kinds]
    if not all(k in CODECS for k in kinds):
        return None
    name = 'Tup_' + '_'.join(kinds)
    sort, mk, acc = z3.TupleSort(name, [CODECS[k].sort for k in kinds])
    cs = [CODECS[k] for k in kinds]

    def enc(v):
        if not isinstance(v, tuple) or len(v) != len(cs):
            raise Unsupported('tuple shape')
        return mk(*[c.enc(x) for c, x in zip(cs, v)])

    def dec(e):
        return tuple(c.dec(z3.simplify(a(e)) if False else a(e))
                     for c, a in zip(cs, acc))
    c = Codec(name, sort, enc, dec)
    _TUP[kinds] = c
    _BYNAME[name] = c
    return c


# ------------------------------------------------------------------ strings
def concat(it, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SStr(z3.Concat(*[sterm(p) for p in out]))


strOf = z3.Function('strOf', ObjSort, StrSort)
reprOf = z3.Function('reprOf', StrSort, StrSort)
reprOfObj = z3.Function('reprOfObj', ObjSort, StrSort)


def str_of(it, v):
    if isinstance(v, Sym):
        if v.kind == 'str':
            return v
        if v.kind == 'int':
            if it.ctx.decide(v.e >= 0):
                return SStr(z3.IntToStr(v.e))
            return SStr(z3.Concat(zstr('-'), z3.IntToStr(-v.e)))
        if v.kind == 'bool':
            return 'True' if it.ctx.decide(v.e) else 'False'
        if v.kind == 'obj':
            return it.world.str_of(it, v)
        raise Unsupported('str of %s' % v.kind)
    if has_sym(v):
        m = getattr(type(v), '__str__', None)
        if isinstance(m, types.FunctionType) and it.source.owns(m):
            return it.call_repo(m, [v], {})
        raise Unsupported('str() of structure with symbolic parts')
    m = getattr(type(v), '__str__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.call_repo(m, [v], {})
    return it.host(str, [v], {})


def repr_of(it, v):
    if isinstance(v, Sym):
        if v.kind == 'str':
            return SStr(reprOf(v.e))
        if v.kind == 'obj':
            return SStr(reprOfObj(v.e))
        if v.kind in ('int', 'bool'):
            return str_of(it, v)
        raise Unsupported('repr of %s' % v.kind)
    if has_sym(v):
        if isinstance(v, tuple) and len(v) != 1:
            parts = ['(']
            for i, x in enumerate(v):
                parts += ([', '] if i else []) + [repr_of(it, x)]
            return concat(it, parts + [')'])
        raise Unsupported('repr() of structure with symbolic parts')
    return it.host(repr, [v], {})


def percent(it, fmt, args):
    if isinstance(fmt, Sym):
        raise Unsupported('symbolic format string')
    if isinstance(args, dict):
        get = None
        mapping = args
    else:
        mapping = None
        if not isinstance(args, tuple):
            args = (args,)
    parts = []
    i = 0
    ai = 0
    lit = ''
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            lit += c
            i += 1
            continue
        i += 1
        if fmt[i] == '%':
            lit += '%'
            i += 1
            continue
        if fmt[i] == '(':
            j = fmt.index(')', i)
            v = mapping[fmt[i + 1:j]]
            i = j + 1
        else:
            if mapping is not None or ai >= len(args):
                raise PyRaise(TypeError('format'))
            v = args[ai]
            ai += 1
        flags = ''
        while fmt[i] in '-+ #0123456789.':
            flags += fmt[i]
            i += 1
        conv = fmt[i]
        i += 1
        parts.append(lit)
        lit = ''
        if flags:
            if not has_sym(v):
                parts.append(it.host(lambda: ('%' + flags + conv) % (v,),
                                     [], {}))
            elif conv in 'sdi':
                # padding is left uninterpreted
                t = sterm(str_of(it, v))
                parts.append(SStr(z3.Function('pad_' + flags, StrSort,
                                              StrSort)(t)))
            else:
                raise Unsupported('format %%%s' % conv)
        elif conv == 's':
            parts.append(str_of(it, v))
        elif conv == 'r':
            parts.append(repr_of(it, v))
        elif conv in 'di':
            parts.append(str_of(it, v) if kind_of(v) == 'int'
                         else _uns('%%d of %s' % kind_of(v)))
        else:
            raise Unsupported('format %%%s' % conv)
    parts.append(lit)
    if mapping is None and ai != len(args):
        raise PyRaise(TypeError('not all arguments converted'))
    return concat(it, parts)


def _uns(m):
    raise Unsupported(m)


# ---------------------------------------------------------------- operators
def binop(it, op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'str' and isinstance(op, ast.Mod):
        return percent(it, a, b)
    if ka == 'str' and kb == 'str' and isinstance(op, ast.Add):
        return concat(it, [a, b])
    if ka == 'str' and isinstance(op, ast.Mult) and isinstance(b, int):
        return concat(it, [a] * b)
    if isinstance(a, str) and isinstance(op, ast.Mult) and kb == 'int':
        f = it.unit.str_repeat if hasattr(it.unit, 'str_repeat') else None
        if f:
            return f(it, a, b)
        raise Unsupported('symbolic repeat')
    num = ('int', 'real', 'bool')
    if ka in num and kb in num:
        if 'real' in (ka, kb):
            x, y = z3.ToReal(iterm(a)) if ka != 'real' else term(a), \
                z3.ToReal(iterm(b)) if kb != 'real' else term(b)
            k = 'real'
        else:
            x, y = iterm(a), iterm(b)
            k = 'int'
        t = type(op)
        if t is ast.Add:
            r = x + y
        elif t is ast.Sub:
            r = x - y
        elif t is ast.Mult:
            r = x * y
        elif t is ast.FloorDiv and k == 'int':
            if isinstance(b, int) and b > 0:
                r = x / y
            else:
                raise Unsupported('//')
        elif t is ast.Mod and k == 'int':
            if isinstance(b, int) and b > 0:
                r = x % y
            else:
                raise Unsupported('%')
        elif t is ast.Div:
            if k == 'int':
                x, y, k = z3.ToReal(x), z3.ToReal(y), 'real'
            if it.ctx.decide(y == 0):
                raise PyRaise(ZeroDivisionError())
            r = x / y
        else:
            raise Unsupported('arithmetic %s' % t.__name__)
        return SInt(r) if k == 'int' else SReal(z3.simplify(r))
    if ka == 'obj' or kb == 'obj':
        return it.world.binop(it, op, a, b)
    if ka == 'str' and kb == 'int' or ka == 'int' and kb == 'str' or \
            'str' in (ka, kb) and 'host' in (ka, kb):
        raise PyRaise(TypeError('unsupported operand'))
    raise Unsupported('binop %s %s %s' % (ka, type(op).__name__, kb))


def same(it, a, b):
    """z3 Bool (or host bool) for `a == b`"""
    ka, kb = kind_of(a), kind_of(b)
    if isinstance(a, VList) and isinstance(b, VList) and \
            (a.pre is not None or b.pre is not None):
        from .loops import list_term
        c = (a.pre or b.pre).codec
        return list_term(a, c) == list_term(b, c)
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (tuple, list)) and type(a) in (tuple, list, VList) \
                and isinstance(b, (tuple, list)):
            if (has_sym(a) or has_sym(b)):
                if isinstance(a, tuple) != isinstance(b, tuple) or \
                        len(a) != len(b):
                    return False
                es = [same(it, x, y) for x, y in zip(a, b)]
                if any(e is False for e in es):
                    return False
                es = [e for e in es if e is not True]
                return z3.And(*es) if es else True
        if has_sym(a) or has_sym(b):
            if a is b:
                return True
            raise Unsupported('== of structures with symbolic parts')
        try:
            return bool(it.host(_CMP[ast.Eq], [a, b], {}))
        except SymUse:
            raise Unsupported('host ==')
    if ka in ('int', 'real', 'bool') and kb in ('int', 'real', 'bool'):
        if ka == kb:
            return term(a) == term(b)
        if 'real' in (ka, kb):
            x = term(a) if ka == 'real' else z3.ToReal(iterm(a))
            y = term(b) if kb == 'real' else z3.ToReal(iterm(b))
            return x == y
        return iterm(a) == iterm(b)
    if ka == 'str' and kb == 'str':
        return sterm(a) == sterm(b)
    if ka == 'obj' or kb == 'obj':
        return it.world.eq(it, a, b)
    if isinstance(a, SMap) or isinstance(b, SMap):
        if a is b:
            return True
        raise Unsupported('== of maps')
    if a is None or b is None or ka != kb:
        return False
    raise Unsupported('== %s %s' % (ka, kb))


def identical(it, a, b):
    if isinstance(a, Sym) and a.kind == 'obj' or \
            isinstance(b, Sym) and b.kind == 'obj':
        return it.world.identical(it, a, b)
    if is_sym(a) or is_sym(b):
        if a is None or b is None:
            return False
        if a is b:
            return True
        if kind_of(a) == 'bool' and kind_of(b) == 'bool':
            return term(a) == term(b)
        if kind_of(a) != kind_of(b):
            return False
        raise Unsupported('identity of symbolic scalars')
    return a is b


def compare(it, op, a, b):
    t = type(op)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported('poison')
    if t is ast.Is:
        r = identical(it, a, b)
        return r if isinstance(r, bool) else SBool(r)
    if t is ast.IsNot:
        r = identical(it, a, b)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
    if t in (ast.In, ast.NotIn):
        r = contains(it, b, a)
        if t is ast.In:
            return r
        if isinstance(r, bool):
            return not r
        return SBool(z3.Not(r.e))
    if t in (ast.Eq, ast.NotEq):
        m = getattr(type(a), '__eq__', None)
        if isinstance(m, types.FunctionType) and it.source.owns(m):
            r = it.truth(it.call_repo(m, [a, b], {}))
            return r if t is ast.Eq else not r
        r = same(it, a, b)
        if isinstance(r, bool):
            return r if t is ast.Eq else not r
        return SBool(r if t is ast.Eq else z3.Not(r))
    if not (has_sym(a) or has_sym(b)):
        return it.host(_CMP[t], [a, b], {})
    ka, kb = kind_of(a), kind_of(b)
    num = ('int', 'real', 'bool')
    if ka in num and kb in num:
        if 'real' in (ka, kb):
            x = term(a) if ka == 'real' else z3.ToReal(iterm(a))
            y = term(b) if kb == 'real' else z3.ToReal(iterm(b))
        else:
            x, y = iterm(a), iterm(b)
        return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                      ast.GtE: x >= y}[t])
    if ka == kb == 'str':
        x, y = sterm(a), sterm(b)
        return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: y < x,
                      ast.GtE: y <= x}[t])
    if ka == 'obj' or kb == 'obj':
        return it.world.order(it, op, a, b)
    if 'host' in (ka, kb) or 'str' in (ka, kb):
        raise PyRaise(TypeError('unorderable'))
    raise Unsupported('compare %s %s' % (ka, kb))


def contains(it, c, x):
    if isinstance(c, Sym):
        if c.kind == 'str':
            return SBool(z3.Contains(c.e, sterm(x)))
        if c.kind == 'obj':
            return it.world.contains(it, c, x)
        raise PyRaise(TypeError('not a container'))
    if isinstance(c, str) and isinstance(x, Sym):
        if x.kind == 'str':
            return SBool(z3.Contains(zstr(c), x.e))
        raise Unsupported('in str')
    if isinstance(c, SMap):
        return SBool(z3.Select(c.dom, c.kc.enc(x)))
    if isinstance(c, VList) and c.pre is not None:
        rest = _any_eq(it, list(c), x)
        p = z3.Contains(c.pre.e, z3.Unit(c.pre.codec.enc(x)))
        if rest is True:
            return True
        return SBool(p if rest is False else z3.Or(p, rest.e))
    if isinstance(c, SList):
        return SBool(z3.Contains(c.e, z3.Unit(c.codec.enc(x))))
    if isinstance(c, (list, tuple, set, frozenset)) or \
            isinstance(c, dict) and type(c) in (dict,):
        if has_sym(x) or has_sym(list(c)):
            return _any_eq(it, list(c), x)
        return it.host(lambda: x in c, [], {})
    m = getattr(type(c), '__contains__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.truth(it.call_repo(m, [c, x], {}))
    if has_sym(x) or has_sym(c):
        raise Unsupported('in %s' % type(c).__name__)
    return it.host(lambda: x in c, [], {})


def _any_eq(it, items, x):
    es = []
    for y in items:
        e = same(it, y, x)
        if e is True:
            return True
        if e is not False:
            es.append(e)
    if not es:
        return False
    return SBool(z3.Or(*es))


# ----------------------------------------------------------------- indexing
def norm_index(it, i, n):
    """resolve a possibly negative index against length term n; raises
    IndexError of the program when out of range"""
    i = iterm(i)
    if it.ctx.decide(i < 0):
        i = i + n
    if not it.ctx.decide(z3.And(i >= 0, i < n)):
        raise PyRaise(IndexError('index out of range'))
    return z3.simplify(i)


def slice_bounds(it, sl, n):
    if sl.step is not None and sl.step != 1:
        raise Unsupported('slice step')

    def clamp(v, dflt):
        if v is None:
            return dflt
        v = iterm(v)
        v = z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n),
                  z3.If(v > n, n, v))
        return z3.simplify(v)
    lo = clamp(sl.start, z3.IntVal(0))
    hi = clamp(sl.stop, n)
    return lo, hi


DROP = z3.Function('str_drop', StrSort, z3.IntSort(), StrSort)
TAKE = z3.Function('str_take', StrSort, z3.IntSort(), StrSort)


def nonneg(t):
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        return True
    return z3.is_add(t) and all(nonneg(x) for x in t.children())


def plain_slice(it, e, k, n):
    """x[a:], x[:b] and x[:-b] for bounds that cannot be negative: exactly
    the solver's own substring, without clamping"""
    if k.step is not None and k.step != 1:
        return None
    lo = None if k.start is None else z3.simplify(iterm(k.start))
    hi = None if k.stop is None else z3.simplify(iterm(k.stop))
    if lo is not None and z3.is_int_value(lo) and lo.as_long() == 0:
        lo = None
    if it.ctx.s.euf:
        # in the theory of uninterpreted string operations
        if hi is None and lo is not None and nonneg(lo):
            return SStr(DROP(e, lo))
        if lo is None and hi is not None:
            if nonneg(hi):
                return SStr(TAKE(e, hi))
            m = z3.simplify(-hi)
            if nonneg(m) and not z3.is_int_value(m):
                if it.ctx.decide(m > 0):
                    return SStr(TAKE(e, n - m))
                return ''
        return None
    if hi is None and lo is not None and nonneg(lo):
        return SStr(z3.SubString(e, lo, n - lo))
    if lo is None and hi is not None:
        if nonneg(hi):
            return SStr(z3.SubString(e, z3.IntVal(0), hi))
        m = z3.simplify(-hi)
        if nonneg(m) and not z3.is_int_value(m):
            if it.ctx.decide(m > 0):
                return SStr(z3.SubString(e, z3.IntVal(0), n - m))
            return ''
    return None


def substr(it, e, lo, hi):
    return SStr(z3.simplify(z3.SubString(e, lo, z3.If(
        hi > lo, hi - lo, z3.IntVal(0)))))


def getitem(it, o, k):
    if isinstance(o, Poison):
        raise Unsupported('poison')
    if isinstance(k, slice) and has_sym([k.start, k.stop, k.step]) or \
            isinstance(o, Sym):
        if isinstance(o, str):
            o = Sym('str', zstr(o))
        if isinstance(o, Sym) and o.kind == 'str':
            n = z3.Length(o.e)
            if isinstance(k, slice):
                r = plain_slice(it, o.e, k, n)
                if r is not None:
                    return r
                lo, hi = slice_bounds(it, k, n)
                return substr(it, o.e, lo, hi)
            return SStr(z3.SubString(o.e, norm_index(it, k, n), 1))
        if isinstance(o, Sym) and o.kind == 'obj':
            return it.world.getitem(it, o, k)
    if isinstance(o, SMap):
        kk = o.kc.enc(k)
        if not it.ctx.decide(z3.Select(o.dom, kk)):
            raise PyRaise(KeyError(k))
        return o.vc.dec(z3.Select(o.val, kk))
    if isinstance(o, VList) and o.pre is not None:
        tail = list(o)
        if isinstance(k, int):
            if k < 0 and -k <= len(tail):
                return tail[k]
            n = z3.Length(o.pre.e)
            if k < 0:
                j = k + len(tail)
                if not it.ctx.decide(n + j >= 0):
                    raise PyRaise(IndexError('list index out of range'))
                return o.pre.codec.dec(o.pre.e[z3.simplify(n + j)])
            if it.ctx.decide(n > k):
                return o.pre.codec.dec(o.pre.e[z3.IntVal(k)])
            if not tail:
                raise PyRaise(IndexError('list index out of range'))
        from .loops import list_term
        e = list_term(o, o.pre.codec)
        n = z3.Length(e)
        if isinstance(k, slice):
            lo, hi = slice_bounds(it, k, n)
            return VList([], SList(z3.Extract(e, lo, z3.If(
                hi > lo, hi - lo, 0)), o.pre.codec))
        return o.pre.codec.dec(e[norm_index(it, k, n)])
    if isinstance(o, SList):
        n = z3.Length(o.e)
        if isinstance(k, slice):
            lo, hi = slice_bounds(it, k, n)
            return SList(z3.Extract(o.e, lo, z3.If(hi > lo, hi - lo, 0)),
                         o.codec, o.tag)
        return o.codec.dec(o.e[norm_index(it, k, n)])
    if isinstance(k, Sym):
        if isinstance(o, dict):
            for kk in list(o):
                e = same(it, kk, k)
                if e is True or e is not False and it.ctx.decide(e):
                    return o[kk]
            m = getattr(type(o), '__missing__', None)
            if m:
                raise Unsupported('__missing__')
            raise PyRaise(KeyError(k))
        if isinstance(o, str) and k.kind == 'int':
            i = norm_index(it, k, z3.IntVal(len(o)))
            return SStr(z3.SubString(zstr(o), i, 1))
        if isinstance(o, (list, tuple)) and k.kind == 'int':
            i = norm_index(it, k, z3.IntVal(len(o)))
            for j in range(len(o)):
                if it.ctx.decide(i == j):
                    return o[j]
            raise PathEnd()
    m = getattr(type(o), '__getitem__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.call_repo(m, [o, k], {})
    if isinstance(o, list) and isinstance(k, slice):
        return VList(list.__getitem__(o, k))
    return it.host(lambda: o[k], [], {})


def setitem(it, o, k, v):
    h = getattr(it.unit, 'on_setitem', None)
    if h is not None:
        r = h(it, o, k, v)
        if r is not NotImplemented:
            return
    if isinstance(o, SMap):
        it.log_write(o, 'content')
        kk = o.kc.enc(k)
        o.dom = z3.Store(o.dom, kk, z3.BoolVal(True))
        o.val = z3.Store(o.val, kk, o.vc.enc(v))
        return
    if isinstance(o, Sym):
        return it.world.setitem(it, o, k, v)
    if isinstance(o, VList) and o.pre is not None:
        it.log_write(o, 'content')
        if isinstance(k, int) and k < 0 and -k <= list.__len__(o):
            list.__setitem__(o, k, v)
            return
        raise Unsupported('store into symbolic list')
    m = getattr(type(o), '__setitem__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.call_repo(m, [o, k, v], {})
    if isinstance(o, dict):
        if is_sym(k):
            for kk in list(o):
                e = same(it, kk, k)
                if e is True or e is not False and it.ctx.decide(e):
                    it.log_write(o, 'key', kk)
                    o[kk] = v
                    return
            raise Unsupported('new symbolic key in host dict')
        it.log_write(o, 'key', k)
    else:
        it.log_write(o, 'content')
        if isinstance(k, Sym):
            raise Unsupported('store at symbolic index')
    it.host(lambda: o.__setitem__(k, v), [], {})


def delitem(it, o, k):
    if isinstance(o, SMap):
        it.log_write(o, 'content')
        kk = o.kc.enc(k)
        if not it.ctx.decide(z3.Select(o.dom, kk)):
            raise PyRaise(KeyError(k))
        o.dom = z3.Store(o.dom, kk, z3.BoolVal(False))
        return
    if isinstance(o, Sym):
        return it.world.delitem(it, o, k)
    if isinstance(o, VList) and o.pre is not None:
        it.log_write(o, 'content')
        if isinstance(k, int) and k < 0 and -k <= list.__len__(o):
            list.__delitem__(o, k)
            return
        if k == -1 and not list.__len__(o):
            n = z3.Length(o.pre.e)
            if not it.ctx.decide(n > 0):
                raise PyRaise(IndexError())
            o.pre = SList(z3.Extract(o.pre.e, z3.IntVal(0), n - 1),
                          o.pre.codec)
            return
        raise Unsupported('del from symbolic list')
    m = getattr(type(o), '__delitem__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.call_repo(m, [o, k], {})
    it.log_write(o, 'content' if isinstance(o, list) else 'key',
                 None if isinstance(o, list) else k)
    if has_sym(k):
        raise Unsupported('del of symbolic key')
    it.host(lambda: o.__delitem__(k), [], {})


def map_truth(it, m):
    raise Unsupported('truth of symbolic map')


def length(it, v):
    if isinstance(v, Sym):
        if v.kind == 'str':
            return SInt(z3.Length(v.e))
        if v.kind == 'obj':
            return it.world.len(it, v)
        raise PyRaise(TypeError('no len'))
    if isinstance(v, VList) and v.pre is not None:
        return SInt(z3.Length(v.pre.e) + list.__len__(v))
    if isinstance(v, SList):
        return SInt(z3.Length(v.e))
    if isinstance(v, AbsIter):
        return SInt(v.n)
    if isinstance(v, SMap):
        raise Unsupported('len of map')
    m = getattr(type(v), '__len__', None)
    if isinstance(m, types.FunctionType) and it.source.owns(m):
        return it.call_repo(m, [v], {})
    if isinstance(v, (list, tuple, dict, set, str)):
        return len(v)
    return it.host(len, [v], {})


# ----------------------------------------------------------------- builtins
def builtin(it, f, args, kw):
    if f in (ast,):
        pass
    name = getattr(f, '__name__', None)
    g = BUILTINS.get(f) if _hashable(f) else None
    if g is not None:
        r = g(it, args, kw)
        if r is not NotImplemented:
            return r
    if isinstance(f, types.BuiltinMethodType) and not isinstance(
            f.__self__, types.ModuleType) and f.__self__ is not None:
        return method(it, f.__self__, f.__name__, args, kw)
    if isinstance(f, type) and issubclass(f, BaseException):
        try:
            return f(*args, **kw)
        except (SymUse, TypeError) as e:
            raise PyRaise(e) if isinstance(e, TypeError) else e
    if has_sym(list(args)) or has_sym(kw):
        h = getattr(it.unit, 'unknown_call', None)
        if h is not None:
            return h(it, f, args, kw)
        raise Unsupported('call of %s with symbolic arguments'
                          % (name or f))
    if callable(f) and isinstance(f, object) and not isinstance(
            f, (types.FunctionType, types.BuiltinFunctionType,
                types.MethodType, type)):
        m = getattr(type(f), '__call__', None)
        if isinstance(m, types.FunctionType) and it.source.owns(m):
            return it.call_repo(m, [f] + list(args), kw)
    h = getattr(it.unit, 'host_call', None)
    if h is not None:
        r = h(it, f, args, kw)
        if r is not NotImplemented:
            return r
    r = it.host(f, args, kw)
    if type(r) is list:
        r = VList(r)
    return r


def _hashable(f):
    try:
        hash(f)
        return True
    except Exception:
        return False


def b_isinstance(it, args, kw):
    o, c = args
    if isinstance(c, tuple):
        rs = [b_isinstance(it, (o, x), {}) for x in c]
        if any(r is True for r in rs):
            return True
        rs = [r.e for r in rs if r is not False]
        return SBool(z3.Or(*rs)) if rs else False
    if isinstance(o, Sym):
        if o.kind == 'obj':
            return it.world.isinstance(it, o, c)
        t = {'str': str, 'int': int, 'bool': bool, 'real': float}[o.kind]
        return issubclass(t, c)
    if isinstance(o, SMap):
        return issubclass(dict, c)
    if isinstance(o, SList):
        return issubclass(tuple if o.tag == 'tuple' else list, c)
    if isinstance(o, (Closure, FModel)):
        if c is types.FunctionType:
            return isinstance(o, Closure)
        return False
    return isinstance(o, c)


def b_hasattr(it, args, kw):
    o, k = args
    if isinstance(o, Sym) and o.kind == 'obj':
        return it.world.hasattr(it, o, k)
    if isinstance(k, Sym):
        raise Unsupported('hasattr(host, symbolic)')
    if isinstance(o, FModel) or not has_sym(o):
        r = it.host(hasattr, [o, k], {})
        if not r:
            it.check_known(o, k)
        return r
    try:
        it.getattr(o, k)
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


def b_getattr(it, args, kw):
    o, k = args[0], args[1]
    if isinstance(o, Sym) and o.kind == 'obj' and isinstance(k, Sym):
        r = None
        try:
            return it.world.getattr(it, o, k)
        except PyRaise as e:
            if len(args) > 2 and isinstance(e.exc, AttributeError):
                return args[2]
            raise
    if isinstance(k, Sym):
        raise Unsupported('getattr(host, symbolic)')
    try:
        return it.getattr(o, k)
    except PyRaise as e:
        if len(args) > 2 and isinstance(e.exc, AttributeError):
            return args[2]
        raise


def b_setattr(it, args, kw):
    if isinstance(args[1], Sym):
        raise Unsupported('setattr symbolic name')
    it.setattr(args[0], args[1], args[2])


def b_callable(it, args, kw):
    o = args[0]
    if isinstance(o, Sym):
        if o.kind == 'obj':
            return it.world.callable(it, o)
        return False
    if isinstance(o, (Closure, FModel, ModelMethod)):
        return True
    if isinstance(o, (SMap, SList)):
        return False
    return callable(o)


def b_len(it, args, kw):
    return length(it, args[0])


def b_str(it, args, kw):
    if not args:
        return ''
    if len(args) > 1 or kw:
        return NotImplemented
    return str_of(it, args[0])


def b_repr(it, args, kw):
    return repr_of(it, args[0])


def b_list(it, args, kw):
    if not args:
        return VList()
    v = args[0]
    if isinstance(v, VList):
        return VList(list(v), v.pre)
    if isinstance(v, SList):
        return VList([], v)
    if isinstance(v, AbsIter):
        if v.src is not None:
            return VList([], v.src)
        raise Unsupported('list(abstract)')
    if is_sym(v):
        if isinstance(v, Sym) and v.kind == 'obj':
            ab = it.as_iter(v)
            if isinstance(ab, AbsIter) and ab.src is not None:
                return VList([], ab.src)
        raise Unsupported('list(sym)')
    return VList(it.host(list, [v], {}))


def b_tuple(it, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, VList) and v.pre is not None:
        from .loops import list_term
        return SList(list_term(v, v.pre.codec), v.pre.codec, 'tuple')
    if isinstance(v, SList):
        return v
    if is_sym(v):
        raise Unsupported('tuple(sym)')
    return tuple(v)


def b_int(it, args, kw):
    v = args[0] if args else 0
    if isinstance(v, Sym):
        if v.kind == 'int':
            return v
        if v.kind == 'bool':
            return SInt(z3.If(v.e, 1, 0))
        if v.kind == 'real':
            return SInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        if v.kind == 'str':
            # CPython's int(): a superset of [0-9]+ is accepted
            f = getattr(it.unit, 'int_of_str', None)
            if f:
                return f(it, v)
        raise Unsupported('int(%s)' % v.kind)
    return NotImplemented


def b_float(it, args, kw):
    v = args[0] if args else 0.0
    if isinstance(v, Sym):
        if v.kind == 'real':
            return v
        if v.kind == 'int':
            return SReal(z3.ToReal(v.e))
        f = getattr(it.unit, 'float_of', None)
        if f:
            return f(it, v)
        raise Unsupported('float(%s)' % v.kind)
    return NotImplemented


def b_bool(it, args, kw):
    return it.truth(args[0]) if args else False


def b_range(it, args, kw):
    if not has_sym(list(args)):
        return NotImplemented
    if len(args) == 1:
        lo, hi = z3.IntVal(0), iterm(args[0])
    elif len(args) == 2:
        lo, hi = iterm(args[0]), iterm(args[1])
    else:
        raise Unsupported('range step')
    n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
    return AbsIter(z3.simplify(n), lambda k: SInt(lo + k))


def b_enumerate(it, args, kw):
    v = it.as_iter(args[0])
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    if isinstance(v, AbsIter):
        return AbsIter(v.n, lambda k: (SInt(k + iterm(st)), v.at(k)))
    if is_sym(st):
        raise Unsupported('enumerate start')
    return VList(enumerate(v, st))


def b_zip(it, args, kw):
    vs = [it.as_iter(a) for a in args]
    if any(isinstance(v, AbsIter) for v in vs):
        if not all(isinstance(v, AbsIter) for v in vs):
            raise Unsupported('zip of symbolic and host lists')
        n = vs[0].n
        for v in vs[1:]:
            n = z3.If(v.n < n, v.n, n)
        return AbsIter(z3.simplify(n), lambda k: tuple(v.at(k) for v in vs))
    return VList(zip(*vs))


def b_reversed(it, args, kw):
    v = it.as_iter(args[0])
    if isinstance(v, AbsIter):
        return AbsIter(v.n, lambda k: v.at(v.n - 1 - k))
    return VList(reversed(v))


def b_type(it, args, kw):
    if len(args) != 1:
        return NotImplemented
    o = args[0]
    if isinstance(o, Sym):
        if o.kind == 'obj':
            return it.world.type_of(it, o)
        return {'str': str, 'int': int, 'bool': bool, 'real': float}[o.kind]
    if isinstance(o, SMap):
        return dict
    if isinstance(o, VList):
        return list
    return type(o)


def b_id(it, args, kw):
    o = args[0]
    if isinstance(o, Sym) and o.kind == 'obj':
        return it.world.id_of(it, o)
    if not isinstance(o, (Sym, SList, SMap)) and not isinstance(
            o, (str, int, float, tuple)):
        return id(o)
    return NotImplemented


def b_minmax(which):
    def f(it, args, kw):
        if not has_sym(list(args)) or len(args) < 2 or kw:
            if len(args) == 1 and not kw and has_sym(args[0]):
                raise Unsupported('max of iterable')
            return NotImplemented
        r = args[0]
        for x in args[1:]:
            c = compare(it, ast.Gt() if which == 'max' else ast.Lt(), x, r)
            if it.truth(c):
                r = x
        return r
    return f


def b_anyall(which):
    def f(it, args, kw):
        v = it.as_iter(args[0])
        if isinstance(v, AbsIter):
            raise Unsupported(which)
        for x in v:
            t = it.truth(x)
            if t and which == 'any':
                return True
            if not t and which == 'all':
                return False
        return which == 'all'
    return f


def b_ord(it, args, kw):
    v = args[0]
    if isinstance(v, Sym) and v.kind == 'str':
        if not it.ctx.decide(z3.Length(v.e) == 1):
            raise PyRaise(TypeError('ord'))
        return SInt(z3.StrToCode(v.e))
    return NotImplemented


def b_chr(it, args, kw):
    v = args[0]
    if isinstance(v, Sym) and v.kind == 'int':
        if not it.ctx.decide(z3.And(v.e >= 0, v.e <= 0x10ffff)):
            raise PyRaise(ValueError('chr'))
        return SStr(z3.StrFromCode(v.e))
    return NotImplemented


def b_dict(it, args, kw):
    if args and isinstance(args[0], SMap) and not kw:
        m = args[0]
        return SMap(m.dom, m.val, m.kc, m.vc, m.name + '_copy')
    if args and isinstance(args[0], Sym):
        raise Unsupported('dict(sym)')
    if args and isinstance(args[0], dict) or not args:
        d = dict(args[0]) if args else {}
        d.update(kw)
        return d
    return NotImplemented


def b_sorted(it, args, kw):
    return NotImplemented


def b_iter(it, args, kw):
    v = it.as_iter(args[0])
    return v if isinstance(v, AbsIter) else iter(list(v))


def b_next(it, args, kw):
    v = args[0]
    if isinstance(v, VList):
        if not v.gen or v.pre is not None:
            raise Unsupported('next() of it')
        if len(v):
            it.log_write(v, 'content')
            return list.pop(v, 0)
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration())
    if isinstance(v, (Sym, AbsIter)):
        raise Unsupported('next() of it')
    return NotImplemented


def b_dir(it, args, kw):
    if args and isinstance(args[0], Sym):
        raise Unsupported('dir(sym)')
    return NotImplemented


BUILTINS = {
    isinstance: b_isinstance, hasattr: b_hasattr, getattr: b_getattr,
    setattr: b_setattr, callable: b_callable, len: b_len, str: b_str,
    repr: b_repr, list: b_list, tuple: b_tuple, int: b_int, float: b_float,
    bool: b_bool, range: b_range, enumerate: b_enumerate, zip: b_zip,
    reversed: b_reversed, type: b_type, id: b_id, max: b_minmax('max'),
    min: b_minmax('min'), any: b_anyall('any'), all: b_anyall('all'),
    ord: b_ord, chr: b_chr, dict: b_dict, iter: b_iter, dir: b_dir,
    next: b_next,
}


# ------------------------------------------------------------------ methods
splitDot = z3.Function('split', StrSort, StrSort, z3.SeqSort(StrSort))
lowerF = z3.Function('lower', StrSort, StrSort)
upperF = z3.Function('upper', StrSort, StrSort)
stripF = z3.Function('strip', StrSort, StrSort)
joinF = z3.Function('join', StrSort, z3.SeqSort(StrSort), StrSort)


def method(it, o, name, args, kw):
    h = getattr(it.unit, 'on_method', None)
    if h is not None:
        r = h(it, o, name, args, kw)
        if r is not NotImplemented:
            return r
    if isinstance(o, str) or isinstance(o, Sym) and o.kind == 'str':
        if not is_sym(o) and not has_sym(list(args)) and not has_sym(kw):
            r = it.host(getattr(o, name), args, kw)
            return VList(r) if type(r) is list else r
        return str_method(it, o, name, args, kw)
    if isinstance(o, SMap):
        return map_method(it, o, name, args, kw)
    if isinstance(o, VList) or isinstance(o, SList) or type(o) is list:
        return list_method(it, o, name, args, kw)
    if isinstance(o, dict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, (set, frozenset)) and not has_sym(list(args)):
        it.log_write(o, 'content')
        return it.host(getattr(o, name), args, kw)
    if not has_sym(o) and not has_sym(list(args)) and not has_sym(kw):
        return it.host(getattr(o, name), args, kw)
    h = getattr(it.unit, 'unknown_call', None)
    if h is not None:
        return h(it, ModelMethod(o, name), args, kw)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))


def str_method(it, o, name, args, kw):
    h = getattr(it.unit, 'str_method_first', None)
    if h:
        r = h(it, o, name, args, kw)
        if r is not NotImplemented:
            return r
    s = sterm(o)
    if kw:
        raise Unsupported('str.%s with keywords' % name)
    if any(isinstance(a, Sym) and a.kind not in ('str', 'int')
           for a in args):
        raise Unsupported('str.%s arguments' % name)
    if name == 'startswith' and len(args) == 1:
        if isinstance(args[0], tuple):
            return SBool(z3.Or(*[z3.PrefixOf(sterm(a), s) for a in args[0]]))
        return SBool(z3.PrefixOf(sterm(args[0]), s))
    if name == 'startswith' and len(args) == 2:
        p = sterm(args[0])
        n = z3.Length(s)
        lo = iterm(args[1])
        if it.ctx.decide(z3.Or(lo < 0, lo > n)):
            raise Unsupported('startswith start out of range')
        return SBool(z3.PrefixOf(p, z3.SubString(s, lo, n - lo)))
    if name == 'endswith' and len(args) == 1:
        if isinstance(args[0], tuple):
            return SBool(z3.Or(*[z3.SuffixOf(sterm(a), s) for a in args[0]]))
        return SBool(z3.SuffixOf(sterm(args[0]), s))
    if name in ('find', 'index'):
        n = z3.Length(s)
        if len(args) == 1:
            r = z3.IndexOf(s, sterm(args[0]), 0)
        elif len(args) == 2:
            lo = iterm(args[1])
            if it.ctx.decide(z3.Or(lo < 0, lo > n)):
                raise Unsupported('find start out of range')
            r = z3.IndexOf(s, sterm(args[0]), lo)
        elif len(args) == 3:
            lo, hi = slice_bounds(it, slice(args[1], args[2]), n)
            sub = z3.SubString(s, lo, z3.If(hi > lo, hi - lo, 0))
            r0 = z3.IndexOf(sub, sterm(args[0]), 0)
            r = z3.If(r0 < 0, r0, r0 + lo)
        else:
            raise Unsupported('find')
        if name == 'index' and it.ctx.decide(r < 0):
            raise PyRaise(ValueError('substring not found'))
        return SInt(r)
    if name == 'rfind' and len(args) == 1:
        n = sterm(args[0])
        if isinstance(args[0], str) and args[0]:
            return SInt(z3.LastIndexOf(s, n))
        r = it.ctx.fresh('rfind')
        r = z3.Int(r) if isinstance(r, str) else r
        it.ctx.assume(z3.Or(
            z3.And(r == -1, z3.Not(z3.Contains(s, n))),
            z3.And(r >= 0, r <= z3.Length(s) - z3.Length(n),
                   z3.SubString(s, r, z3.Length(n)) == n,
                   z3.IndexOf(s, n, r + 1) < 0)))
        return SInt(r)
    if name == 'split' and len(args) == 1 and isinstance(args[0], str) \
            and len(args[0]) == 1:
        sep = zstr(args[0])
        seq = splitDot(s, sep)
        c = it.ctx
        c.assume(z3.Length(seq) >= 1)
        # first element: up to the first separator
        i = z3.IndexOf(s, sep, 0)
        c.assume(seq[0] == z3.If(i < 0, s, z3.SubString(s, 0, i)))
        c.assume((z3.Length(seq) == 1) == z3.Not(z3.Contains(s, sep)))
        it.ctx.s.assumptions.add(
            "str.split(sep): at least one piece, the first ends before the "
            "first separator; other pieces uninterpreted")
        return VList([], SList(seq, CODECS['str']))
    if name == 'join':
        v = args[0]
        if isinstance(v, VList) and v.pre is not None:
            from .loops import list_term
            return join_seq(it, o, v)
        if isinstance(v, (list, tuple)):
            parts = []
            for i, x in enumerate(v):
                if i:
                    parts.append(o)
                if kind_of(x) != 'str':
                    if kind_of(x) == 'obj':
                        raise Unsupported('join of objects')
                    raise PyRaise(TypeError('join'))
                parts.append(x)
            return concat(it, parts)
        raise Unsupported('join')
    if name == 'lower' and not args:
        return SStr(lowerF(s))
    if name == 'upper' and not args:
        return SStr(upperF(s))
    if name == 'replace' and len(args) == 2:
        h = getattr(it.unit, 'str_replace', None)
        if h:
            return h(it, o, args[0], args[1])
        raise Unsupported('replace on symbolic string')
    if name == 'strip' and not args:
        return SStr(stripF(s))
    if name == 'count' and len(args) == 1:
        raise Unsupported('count')
    if name == 'isdigit' and not args:
        d = z3.Plus(z3.Range('0', '9'))
        raise Unsupported('isdigit is wider than [0-9]')
    h = getattr(it.unit, 'str_method', None)
    if h:
        r = h(it, o, name, args, kw)
        if r is not NotImplemented:
            return r
    raise Unsupported('str.%s on symbolic string' % name)


def join_seq(it, sep, v):
    """sep.join(v) for a list with symbolic prefix, as joinF plus its
    defining equations for the host tail"""
    p = v.pre.e
    if v.pre.codec.sort != StrSort:
        raise Unsupported('join of non-strings')
    sp = sterm(sep)
    r = joinF(sp, p)
    if isinstance(sep, str) and sep == '':
        parts = [SStr(r)] + list(v)
        it.ctx.assume(z3.Implies(z3.Length(p) == 0, r == zstr('')))
        return concat(it, parts)
    if list(v):
        raise Unsupported('join with separator over mixed list')
    return SStr(r)


def list_method(it, o, name, args, kw):
    if isinstance(o, SList):
        if name == 'index' or name == 'count':
            raise Unsupported('tuple.%s' % name)
        raise Unsupported('SList.%s' % name)
    sym = isinstance(o, VList) and o.pre is not None
    if name == 'append':
        it.log_write(o, 'content')
        list.append(o, args[0])
        return None
    if name == 'extend':
        if isinstance(o, VList):
            v = args[0]
            if not isinstance(v, VList):
                ab = it.as_iter(v)
                if isinstance(ab, AbsIter):
                    if ab.src is None:
                        raise Unsupported('extend abstract')
                    v = VList([], ab.src)
                else:
                    v = list(ab)
            it.extend(o, v)
            return None
        it.log_write(o, 'content')
        if is_sym(args[0]):
            raise Unsupported('extend host list')
        return it.host(list.extend, [o, args[0]], {})
    if name == 'pop':
        it.log_write(o, 'content')
        if not sym:
            if has_sym(list(args)):
                raise Unsupported('pop(sym)')
            return it.host(list.pop, [o] + list(args), {})
        i = args[0] if args else -1
        if i == -1:
            if list.__len__(o):
                return list.pop(o)
            n = z3.Length(o.pre.e)
            if not it.ctx.decide(n > 0):
                raise PyRaise(IndexError('pop from empty list'))
            v = o.pre.codec.dec(o.pre.e[n - 1])
            o.pre = SList(z3.Extract(o.pre.e, z3.IntVal(0), n - 1),
                          o.pre.codec)
            return v
        if i == 0:
            n = z3.Length(o.pre.e)
            if it.ctx.decide(n > 0):
                v = o.pre.codec.dec(o.pre.e[z3.IntVal(0)])
                o.pre = SList(z3.Extract(o.pre.e, z3.IntVal(1), n - 1),
                              o.pre.codec)
                return v
            o.pre = None
            return it.host(list.pop, [o, 0], {})
        raise Unsupported('pop index')
    if name == 'insert':
        it.log_write(o, 'content')
        if not sym:
            return it.host(list.insert, [o] + list(args), {})
        if args[0] == 0:
            c = o.pre.codec
            o.pre = SList(z3.Concat(z3.Unit(c.enc(args[1])), o.pre.e), c)
            return None
        raise Unsupported('insert')
    if name == 'reverse' and not sym or name == 'clear' or name == 'copy' \
            and not sym:
        if name == 'clear':
            it.log_write(o, 'content')
            if sym:
                o.pre = None
            list.clear(o)
            return None
        if name == 'copy':
            return VList(list(o))
        it.log_write(o, 'content')
        list.reverse(o)
        return None
    if name == 'index' and not sym and has_sym(list(o) + list(args)):
        for i, x in enumerate(o):
            e = same(it, x, args[0])
            if e is True or e is not False and it.ctx.decide(e):
                return i
        raise PyRaise(ValueError('not in list'))
    if name == 'remove' and not sym and has_sym(list(o) + list(args)):
        it.log_write(o, 'content')
        for i, x in enumerate(list(o)):
            e = same(it, x, args[0])
            if e is True or e is not False and it.ctx.decide(e):
                list.pop(o, i)
                return None
        raise PyRaise(ValueError('not in list'))
    if not sym and not has_sym(list(o)) and not has_sym(list(args)):
        if name in ('remove', 'sort'):
            it.log_write(o, 'content')
        return it.host(getattr(o, name), args, kw)
    raise Unsupported('list.%s on symbolic list' % name)


def dict_method(it, o, name, args, kw):
    if name in ('get', 'setdefault', 'pop', '__getitem__', 'has_key') and \
            args and is_sym(args[0]):
        for kk in list(o):
            e = same(it, kk, args[0])
            if e is True or e is not False and it.ctx.decide(e):
                if name == 'pop':
                    it.log_write(o, 'key', kk)
                    return o.pop(kk)
                return o[kk]
        if name == 'get':
            return args[1] if len(args) > 1 else None
        if name == 'pop' and len(args) > 1:
            return args[1]
        raise Unsupported('dict.%s new symbolic key' % name)
    if name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__'):
        if name in ('setdefault', 'pop'):
            it.log_write(o, 'key', args[0])
        return it.host(getattr(o, name), args, kw)
    if name in ('keys', 'values', 'items'):
        return VList(getattr(o, name)())
    if name == 'copy':
        return dict(o)
    if name == 'update':
        if args and is_sym(args[0]):
            raise Unsupported('update(sym)')
        for k in (args[0] if args else {}):
            it.log_write(o, 'key', k if not isinstance(k, tuple) else None)
        return it.host(o.update, args, kw)
    if name == 'clear':
        for k in list(o):
            it.log_write(o, 'key', k)
        o.clear()
        return None
    if not has_sym(list(args)):
        return it.host(getattr(o, name), args, kw)
    raise Unsupported('dict.%s' % name)


def map_method(it, o, name, args, kw):
    c = it.ctx
    if name == 'get':
        kk = o.kc.enc(args[0])
        if c.decide(z3.Select(o.dom, kk)):
            return o.vc.dec(z3.Select(o.val, kk))
        return args[1] if len(args) > 1 else kw.get('default')
    if name == 'has_key' or name == '__contains__':
        return contains(it, o, args[0])
    if name == '__getitem__':
        return getitem(it, o, args[0])
    if name == '__setitem__':
        return setitem(it, o, args[0], args[1])
    if name == '__delitem__':
        return delitem(it, o, args[0])
    if name == 'pop':
        kk = o.kc.enc(args[0])
        it.log_write(o, 'content')
        if c.decide(z3.Select(o.dom, kk)):
            v = o.vc.dec(z3.Select(o.val, kk))
            o.dom = z3.Store(o.dom, kk, z3.BoolVal(False))
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError(args[0]))
    if name == 'setdefault':
        kk = o.kc.enc(args[0])
        if c.decide(z3.Select(o.dom, kk)):
            return o.vc.dec(z3.Select(o.val, kk))
        d = args[1] if len(args) > 1 else None
        setitem(it, o, args[0], d)
        return d
    if name == 'clear':
        it.log_write(o, 'content')
        o.dom = z3.K(o.kc.sort, z3.BoolVal(False))
        return None
    if name == 'copy':
        return SMap(o.dom, o.val, o.kc, o.vc, o.name + '_copy')
    h = getattr(it.unit, 'map_method', None)
    if h:
        r = h(it, o, name, args, kw)
        if r is not NotImplemented:
            return r
    raise Unsupported('map.%s' % name)
