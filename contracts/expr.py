"""Contracts for placeholder expressions and assignments (C13)."""
import types
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import FModel
from pyvc.runner import Unit
from pyvc import models as M
from contracts.staged import StagedUnit, generate

CO = 'Cheetah.Compiler'
PA = 'Cheetah.Parser'


class Stub(object):
    def __len__(self):
        return 10 ** 6


class StubUnit(Unit):
    """methods of a class on an object whose state is set up by the contract:
    `given` are the methods under contract of their own"""
    given = ()
    budget_s = 60
    unroll_while_true = concrete_loops = True

    def setup(self, cls):
        self.cls = self.resolve(cls)
        self.obj = Stub()
        return self.obj

    def on_getattr(self, it, o, name):
        if o is self.obj and name not in o.__dict__:
            if name in self.given:
                return FModel(lambda i, a, k: getattr(
                    self, 'do_' + name)(i, *a, **k), name)
            f = getattr(self.cls, name, None)
            if isinstance(f, types.FunctionType):
                return types.MethodType(f, o)
            if f is not None:
                return f
        return NotImplemented


# ----------------------------------------------- from name chunks to Python

class Term(object):
    """value of an emitted expression: what was done, in order"""
    def __init__(self, t):
        self.t = t

    def __call__(self, *a, **k):
        return Term(('call', self.t, tuple(x.t if isinstance(x, Term) else x
                                           for x in a)))

    def __getitem__(self, k):
        return Term(('sub', self.t, k.t if isinstance(k, Term) else k))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Term(('attr', self.t, n))


def vfn(o, name, ac=False):
    t = o.t
    for n in name.split('.'):
        t = ('get', t, n, bool(ac))
    return Term(t)


def first(o, name, ac=False):
    t = ('look', name.split('.')[0], bool(ac))
    for n in name.split('.')[1:]:
        t = ('get', t, n, bool(ac))
    return Term(t)


class Gen(StubUnit):
    """the emitted expression looks the first name up and takes everything
    else in order, for every combination of settings"""
    name = 'Compiler.genCheetahVar'
    target = CO + ':GenUtils.genCheetahVar'
    bounded_by = 'at most three name chunks'
    max_paths = 60000
    given = ('setting', 'addGetTextVar')
    RESTS = ['', '(zr%d)', '[zr%d]']

    def do_setting(self, it, name, default=None):
        if name == 'gettextTokens':
            return ['_', 'N_']
        if name in ('useAutocalling', 'useSearchList', 'useStackFrames',
                    'useNameMapper'):
            return self.s[name]
        raise Unsupported('setting %s' % name)

    def do_addGetTextVar(self, it, chunks):
        return None

    def run(self, it):
        c = it.ctx
        g = self.setup(CO + ':GenUtils')
        self.s = {k: bool(c.choose(2)) for k in (
            'useAutocalling', 'useSearchList', 'useStackFrames')}
        self.s['useNameMapper'] = True
        plain = False
        if c.choose(4) == 3:
            if c.choose(2):
                plain = True
            else:
                self.s['useNameMapper'] = False
        ac = self.s['useAutocalling']
        usenm = self.s['useNameMapper'] and not plain
        chunks, want = [], None
        n = 1 + c.choose(3)
        for i in range(n):
            names = ['zn%d' % i, 'zn%d.zm%d' % (i, i)][
                c.choose(2) if i < 2 else 0]
            use = bool(c.choose(2))
            r = self.RESTS[c.choose(3 if i < 1 else 2)]
            rest = r and r % i
            chunks.append((names, use, rest))
            flag = ac and use
            parts = names.split('.')
            for j, p in enumerate(parts):
                if want is None:
                    want = ('look', p, flag) \
                        if usenm and self.s['useSearchList'] else ('py', p)
                elif usenm:
                    want = ('get', want, p, flag)
                else:
                    want = ('attr', want, p)
            if rest:
                want = ('call', want, ('zr%d' % i,)) if rest[0] == '(' else \
                    ('sub', want, 'zr%d' % i)
        out = self.outcome(it, self.resolve(), [g, list(chunks)] +
                           ([True] if plain else []))
        c.prove('generates code', out.kind == 'return')
        if not isinstance(out.value, str):
            raise Unsupported('symbolic code')
        env = {'VFFSL': lambda SL, n_, a: first(SL, n_, a),
               'VFSL': lambda SL, n_, a: first(SL, n_, a),
               'VFN': vfn, 'SL': ['SL'], 'locals': lambda: {},
               'globals': lambda: {}, 'builtin': None}
        for i in range(n):
            env['zr%d' % i] = 'zr%d' % i
            env.setdefault('zn%d' % i, Term(('py', 'zn%d' % i)))
        try:
            v = eval(out.value, env)
        except SyntaxError:
            c.prove('the code is an expression', False)
            return
        except Exception as e:
            raise Unsupported('emitted code of another scheme: %s' % e)
        c.prove('everything is taken over in order',
                isinstance(v, Term) and v.t == want)


# ----------------------------------------------- from source to name chunks

class Chunks(StubUnit):
    name = 'Parser.getCheetahVarNameChunks'
    target = PA + ':_LowLevelParser.getCheetahVarNameChunks'
    bounded_by = 'at most three dotted names'
    max_paths = 60000
    given = ('peek', 'advance', 'getDottedName', 'getCallArgString',
             'getExpression', 'atEnd', 'pos', 'getc', 'rev')

    # the source is a list of tokens, each read by one scanning function:
    # a dotted name, an argument list, a subscript, a period, other text
    def cur(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def do_peek(self, it, n=0):
        j = self.i + n
        if j >= len(self.toks):
            raise Unsupported('peek past the end')
        return self.toks[j][0]

    def do_pos(self, it):
        return self.i

    def do_atEnd(self, it):
        return self.i >= len(self.toks)

    def do_advance(self, it, n=1):
        self.i += n

    def do_rev(self, it, n=1):
        self.i -= n

    def do_getc(self, it):
        self.i += 1
        return self.toks[self.i - 1][0]

    def do_getDottedName(self, it):
        t = self.cur()
        if t is None or t[0] != 'z':
            raise Unsupported('name expected')
        self.i += 1
        return t

    def do_getCallArgString(self, it, *a, **k):
        t = self.cur()
        if t is None or t[0] != '(':
            raise Unsupported('arguments expected')
        self.i += 1
        return t

    def do_getExpression(self, it, enclosed=False, **k):
        t = self.cur()
        if t is None or t[0] != '[':
            raise Unsupported('subscript expected')
        self.i += 1
        return t

    def run(self, it):
        c = it.ctx
        p = self.setup(PA + ':_LowLevelParser')
        toks, want = [], []
        n = 1 + c.choose(3)
        for i in range(n):
            nm = ['za%d' % i, 'za%d.zb%d' % (i, i),
                  'za%d.zb%d.zc%d' % (i, i, i)][c.choose(3)]
            toks.append(nm)
            k = c.choose(3)
            rest = ['', '(r%d)' % i, '[r%d]' % i][k]
            if i < n - 1 and not rest:
                rest = '[r%d]' % i      # otherwise it is one dotted name
                k = 2
            parts = nm.split('.')
            want += [(x, True) for x in parts[:-1]]
            want.append((parts[-1], k != 1))
            if rest:
                toks.append(rest)
                want.append(rest)
            if i < n - 1:
                toks.append('.')
        end = c.choose(4)
        if end == 1:
            toks += [' ']
        elif end == 2:
            toks += ['.', ' ']
        elif end == 3:
            toks += ['$']
        self.toks, self.i = toks, 0
        stop = len(toks) - (0, 1, 2, 1)[end]
        Stub.__len__ = lambda s: len(self.toks)
        out = self.outcome(it, self.resolve(), [p])
        if out.kind != 'return' or not isinstance(out.value, list):
            raise Unsupported('another scheme: %r' % out)
        got = []
        for ch in out.value:
            try:
                nm, ac, rest = ch
            except Exception:
                raise Unsupported('another form of name chunks')
            got += [(x, bool(ac)) for x in nm.split('.')]
            if rest:
                got.append(rest)
        c.prove('all names, arguments and subscripts, in order; the last '
                'name before arguments is not called by itself', got == want)
        c.prove('nothing more is read', self.i == stop)


# ----------------------------------------------- assignment

class Details(object):
    pass


class SetGlobal(StubUnit):
    """whatever the target, #set global assigns the entry of its first name;
    the form of the emitted statement is taken from a probe, which is run"""
    name = 'Compiler.addSet (global)'
    target = CO + ':MethodCompiler.addSet'
    given = ('addChunk', 'setting')
    style = 'SET_GLOBAL'

    def do_setting(self, it, name):
        raise Unsupported('setting')

    def do_addChunk(self, it, s):
        self.chunks.append(s)

    def str_method_first(self, it, o, name, args, kw):
        # where the first period and bracket of the target are
        if name == 'find' and len(args) == 1 and args[0] in self.where \
                and isinstance(self.lv, Sym) and M.sterm(o).eq(self.lv.e):
            return Sym('int', self.where[args[0]])
        return NotImplemented

    lv = None

    def emit(self, it, lv, op, rv):
        self.lv = lv
        m = self.setup(CO + ':MethodCompiler')
        self.chunks = []
        e = Details()
        e.LVALUE, e.OP, e.RVALUE = lv, op, rv
        m._moduleCompiler = Details()
        m._moduleCompiler.addModuleGlobal = FModel(
            lambda i, a, k: self.chunks.append(a[0]), 'addModuleGlobal')
        expr = Sym('str', z3.Concat(M.sterm(lv), zstr(' %s %s' % (op, rv)))) \
            if not isinstance(lv, str) else '%s %s %s' % (lv, op, rv)
        out = self.outcome(it, self.resolve(), [
            m, expr, e, self.resolve(PA + ':' + self.style)])
        it.ctx.prove('an assignment is emitted', out.kind == 'return'
                     and len(self.chunks) == 1)
        return self.chunks[0]

    def probe(self, it):
        s = self.emit(it, 'zqx', '=', 'zqv')
        if not isinstance(s, str) or s.count('zqx') != 1 or \
                s.count('zqv') != 1:
            raise Unsupported('emitted assignment of another form')
        a, b = s.split('zqx')

        class T(object):
            pass
        t = T()
        t._CHEETAH__globalSetVars = {}
        env = {'self': t, 'zqv': 5}
        try:
            exec(s, env)
        except Exception as e:
            raise Unsupported('emitted assignment of another form: %s' % e)
        it.ctx.prove('the variable named is set',
                     self.effect(t, env) == {'zqx': 5})
        return a, b.split('zqv')

    def effect(self, t, env):
        return t._CHEETAH__globalSetVars

    def run(self, it):
        c = it.ctx
        pre, (mid, post) = self.probe(it)
        op = ['=', '+=', '//='][c.choose(3)]
        if not mid.endswith(' = '):
            raise Unsupported('emitted assignment of another form')
        mid = mid[:-3]
        # any first name, any attributes and subscripts after it
        name, rest = z3.String('name'), z3.String('rest')
        c.assume(z3.Length(name) > 0)
        c.assume(z3.Not(z3.Contains(name, zstr('.'))))
        c.assume(z3.Not(z3.Contains(name, zstr('['))))
        k = c.choose(3)
        n = z3.Length(name)
        if k == 0:
            rest = zstr('')
            self.where = {'.': z3.IntVal(-1), '[': z3.IntVal(-1)}
        else:
            rest = z3.Concat(zstr('.['[k - 1]), rest)
            other = z3.Int('other')
            c.assume(z3.Or(other == -1, other > n))
            self.where = {'.['[k - 1]: n, '.['[2 - k]: other}
        lv = Sym('str', z3.Concat(name, rest))
        got = self.emit(it, lv, op, 'zqv')
        c.prove('the first name of the target is set, with everything after '
                'it taken over', M.sterm(got) == z3.Concat(
                    zstr(pre), name, zstr(mid), rest,
                    zstr(' %s zqv' % op + post)))


class SetLocal(SetGlobal):
    name = 'Compiler.addSet (local)'
    style = 'SET_LOCAL'

    def effect(self, t, env):
        return {k: v for k, v in env.items()
                if k not in ('self', 'zqv', '__builtins__')}


class SetModule(SetLocal):
    name = 'Compiler.addSet (module)'
    style = 'SET_MODULE'


# ----------------------------------------------- output of a value

FIL = z3.Function('flt', StrSort, StrSort)


class Form(StagedUnit):
    """in every form of placeholder, the value passes the filter once"""
    name = 'generated placeholder'
    target = CO + ':MethodCompiler.addPlaceholder'
    FORMS = ['$x', '${x}', '$(x)', '$[x]', '$!x', '$!{x}', '$*x', '$*{x}',
             '$*5m*x', '$!*x', '$!*(x)', '#echo $x#', '${ x }', '${1 and $x}',
             '#call $ident#$x#end call#']

    def lookup(self, it, name):
        if name == 'x':
            it.ctx.event('look', 'x')
            return self.value
        if name == 'ident':
            return FModel(lambda i, a, k: a[0], 'ident')
        raise Unsupported('lookup of %s' % name)

    def filter(self, it, a, k):
        self.calls += 1
        return Sym('str', FIL(M.sterm(a[0])))

    def run(self, it):
        c = it.ctx
        if not hasattr(self, 'made'):
            self.made = {}
        f = self.FORMS[c.choose(len(self.FORMS))]
        if f not in self.made:
            self.made[f] = generate(self.scratch, 'A' + f + '|B')
        t = self.made[f]()
        t._CHEETAH__currentFilter = t._CHEETAH__initialFilter = FModel(
            self.filter, 'filter')
        none = f != '#call $ident#$x#end call#' and bool(c.choose(2))
        self.value = None if none else Sym('str', z3.String('x'))
        self.calls = 0
        out = self.outcome(it, type(t).respond, [t])
        c.prove('%s renders' % f, out.kind == 'return')
        c.prove('%s is looked up once' % f, len(
            [e for e in c.trace if e[0] == 'look']) == 1)
        x = FIL(z3.String('x'))
        if f.startswith('#call'):
            x = FIL(x)
        elif none:
            x = zstr('')
        c.prove('%s passes the filter exactly once' % f, M.sterm(out.value)
                == z3.Concat(zstr('A'), x, zstr('|B')))


UNITS = [Gen, Chunks, SetGlobal, SetLocal, SetModule, Form]
