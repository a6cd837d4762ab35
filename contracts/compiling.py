"""Contracts for Template.compile (C12, C16).

The options are opaque values the function only passes on.  Every call it
makes to something outside of it that can fail (compiler, preprocessor,
generated module code, file system) either succeeds or raises, at the
verifier's choice, so each obligation is proved for every failure point."""
import builtins
import os
import sys
import threading
import types
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import FModel, PyRaise
from pyvc.runner import Unit
from pyvc import models as M

TE = 'Cheetah.Template'


class Failure(Exception):
    pass


class CompileUnit(Unit):
    target = TE + ':Template.compile'
    max_paths = 4000

    # ------------------------------------------------------------- stubs
    def maybe(self, it, what, value, exc=None):
        """the call succeeds with value() or raises"""
        if self.may_fail and it.ctx.choose(2):
            it.ctx.note('%s raises' % what)
            self.failed.append(what)
            raise PyRaise((exc or Failure)(what))
        self.did.append(what)
        return value() if callable(value) else value

    def on_call(self, it, f, args, kw):
        if f is self.compilerClass:
            self.built = (list(args), dict(kw))
            return self.maybe(it, 'compiler', lambda: self.compiler)
        if f is repr and args and isinstance(args[0], (list, tuple)):
            self.key_parts = args[0]
            return 'KEY'
        if f is builtins.compile:
            self.compiled = args[0]
            r = it.ctx.choose(3) if self.may_fail else 0
            if r:
                self.failed.append('compile()')
                raise PyRaise(SyntaxError('generated') if r == 1
                              else Failure('compile()'))
            return self.code_object
        if f is builtins.exec:
            self.did.append('exec')
            if args[0] is not self.code_object:
                raise Unsupported('exec of something else')
            r = it.ctx.choose(3) if self.may_fail else 0
            if r:
                self.failed.append('exec')
                raise PyRaise(SyntaxError('generated') if r == 1
                              else Failure('exec'))
            args[1][self.className] = self.newclass
            return None
        if f is builtins.open:
            return self.maybe(it, 'open', self.file)
        if f is os.path.exists:
            r = bool(it.ctx.choose(2))
            if not r:
                self.missing = True
            return r
        if f is os.path.getmtime:
            return self.maybe(it, 'getmtime', 12345.0)
        if f is builtins.globals:
            return {'__checkFileMtime': True}
        n = getattr(f, '__name__', '')
        if n == 'genParserErrorFromPythonException':
            return self.maybe(it, 'error report', Failure('report'))
        if n == 'updateLinecache':
            return None
        if n == '_preprocessSource':
            return self.maybe(it, 'preprocessor', ('PRE', None))
        if n == '_genUniqueModuleName':
            return 'unique_c16_module'
        return NotImplemented

    def on_setitem(self, it, o, k, v):
        if o is sys.modules:
            self.registered.append((k, v))
            return True
        return NotImplemented

    def run(self, it):
        c = it.ctx
        T = self.resolve(TE + ':Template')
        unit = self
        self.failed, self.did, self.registered = [], [], []
        self.key_parts = self.built = self.compiled = None
        self.className = 'Cls'
        self.code_object = object()
        self.file = type('FileStub', (object,), {})()
        for n in ('write', 'close', '__enter__', '__exit__'):
            setattr(self.file, n, FModel(
                lambda it_, a, k: self.maybe(it_, 'file', None), n))
        self.newclass = type('New', (object,), {})
        self.item_class = type('Cached', (object,), {})
        self.depth = 0
        self.missing = False

        class LockStub(object):
            pass
        lock = LockStub()

        def acquire(it_, a, k):
            unit.depth += 1

        def release(it_, a, k):
            c.prove('releases only a lock it holds', unit.depth == 1)
            unit.depth -= 1
        lock.acquire = FModel(acquire, 'acquire')
        lock.release = FModel(release, 'release')
        lock.__enter__ = FModel(acquire, 'acquire')
        lock.__exit__ = FModel(release, 'release')

        class CompStub(object):
            pass
        comp = self.compiler = CompStub()
        for n, v in (('compile', None), ('getModuleCode', 'CODE'),
                     ('getModuleEncoding', 'utf-8'), ('setShBang', None)):
            setattr(comp, n, FModel(
                lambda it_, a, k, n=n, v=v: unit.maybe(it_, n, v), n))

        class CC(object):
            pass
        self.compilerClass = CC
        self.K = type('K', (T,), {'_CHEETAH_compileLock': lock})
        self.cache = {}
        self.K._CHEETAH_compileCache = self.cache
        kw = {'compilerClass': CC, 'className': self.className}
        self.options(it, kw)
        args = [self.K]
        before = dict(vars(self.K))
        cache0 = dict(self.cache)
        items0 = {k: dict(vars(v)) for k, v in self.cache.items()}
        out = self.outcome(it, self.resolve(), args, kw)
        c.prove('the lock is free', self.depth == 0)
        now = dict(vars(self.K))
        c.prove('class defaults are as before', set(before) == set(now) and
                all(before[k] is now[k] for k in before))
        if out.kind == 'raise':
            c.prove('no module registered', not self.registered)
            c.prove('no cache entry made or lost', self.cache == cache0)
            c.prove('raises only what failed', bool(self.failed) or
                    self.may_raise(out))
        else:
            c.prove('a failure is never swallowed', not self.failed)
        self.after(it, out, kw, cache0, items0)

    def may_raise(self, out):
        return self.missing

    def after(self, it, out, kw, cache0, items0):
        pass


class Failing(CompileUnit):
    name = 'Template.compile (every failure point)'
    may_fail = True

    def options(self, it, kw):
        c = it.ctx
        kw['source'] = 'SRC'
        k = c.choose(4)
        if k == 1:
            kw['preprocessors'] = [object()]
        elif k == 2:
            kw['moduleGlobals'] = {'g': 1}
            kw['baseclass'] = int
        elif k == 3:
            kw['cacheModuleFilesForTracebacks'] = True
            kw['cacheDirForModuleFiles'] = '/nowhere'
        kw['cacheCompilationResults'] = bool(c.choose(2))


class Item(object):
    pass


PARTS = [('source', 'SRC'), ('moduleName', 'Mod'), ('className', 'Cls'),
         ('mainMethodName', 'meth'), ('moduleGlobals', 'G'),
         ('compilerSettings', 'S'), ('baseclass', 'B'),
         ('compilerClass', 'C')]


class Cached(CompileUnit):
    name = 'Template.compile (cache)'
    may_fail = False

    def contracts(self):
        def key_of(it, args, kw):
            v = args[0]
            self.described.append(v)
            self.refs += [a for a in args[1:] if isinstance(a, list)]
            return ('description', len(self.described) - 1)
        return {TE + ':_cacheKeyOf': key_of}

    def options(self, it, kw):
        c = it.ctx
        self.described, self.refs = [], []
        self.G, self.S = object(), {'useFilters': False}
        kw.update(source='SRC', moduleName='Mod', mainMethodName='meth',
                  moduleGlobals={'g': self.G}, compilerSettings=self.S,
                  baseclass=Item,
                  cacheCompilationResults=bool(c.choose(2)),
                  useCache=bool(c.choose(2)),
                  returnAClass=bool(c.choose(2)))
        self.state = c.choose(3)
        item = Item()
        item.klass, item.code, item.encoding = \
            self.item_class, 'CODE', 'utf-8'
        if self.state == 1:
            self.cache['KEY'] = item
        elif self.state == 2:
            self.cache['OTHER'] = item

    def after(self, it, out, kw, cache0, items0):
        c = it.ctx
        if self.key_parts is None:
            raise Unsupported('another kind of cache key')

        def inside(v, o, depth=4):
            if o is v:
                return True
            if depth and isinstance(o, (list, tuple)):
                return any(inside(v, x, depth - 1) for x in o)
            if depth and isinstance(o, dict):
                return any(inside(v, x, depth - 1) for x in o.values())
            return False
        for n, v in (('source', 'SRC'), ('module name', 'Mod'),
                     ('class name', 'Cls'), ('main method', 'meth'),
                     ('compiler class', self.compilerClass),
                     ('base class', Item), ('settings', self.S),
                     ('module globals', self.G)):
            c.prove('the key describes the ' + n,
                    inside(v, self.described))
        c.prove('and consists of nothing but the descriptions', all(
            isinstance(p, tuple) and p[0] == 'description'
            for p in self.key_parts))
        c.prove('returns', out.kind == 'return')
        hit = self.state == 1 and kw['useCache']
        c.prove('compiles exactly when the key is not in the cache',
                (self.built is None) == hit)
        if not kw['returnAClass']:
            c.prove('the text of the module has its encoding', isinstance(
                out.value, bytes) and b'utf-8' in out.value and
                b'CODE' in out.value)
            c.prove('the cache is as before', self.cache == cache0)
            return
        if hit:
            c.prove('gives the class stored under the key',
                    out.value is self.item_class)
            c.prove('runs nothing', 'exec' not in self.did)
            c.prove('the cache is as before', self.cache == cache0)
            return
        c.prove('gives the class of the new module',
                out.value is self.newclass)
        c.prove('made from the generated code', self.compiled == 'CODE')
        a, k = self.built
        vals = list(a) + list(k.values())
        for n, v in (('source', 'SRC'), ('module name', 'Mod'),
                     ('class name', 'Cls'), ('main method', 'meth')):
            c.prove('the compiler gets the ' + n, v in vals)
        c.prove('the compiler gets the settings', any(
            v is self.S or v == self.S for v in vals
            if isinstance(v, dict)))
        c.prove('one module registered, the new one',
                len(self.registered) == 1)
        if len(self.registered) == 1:
            m = self.registered[0][1]
            c.prove('it has the module globals',
                    getattr(m, 'g', None) is self.G)
        want = kw['cacheCompilationResults'] and self.state != 1
        c.prove('stored exactly when asked for', set(self.cache) ==
                set(cache0) | ({'KEY'} if want else set()))
        if want and 'KEY' in self.cache:
            i = self.cache['KEY']
            if not hasattr(i, 'klass'):
                raise Unsupported('another kind of cache entry')
            vs = list(vars(i).values())
            c.prove('the entry is the class and its code',
                    i.klass is self.newclass and 'CODE' in vs)
            c.prove('the entry keeps what the key identifies alive',
                    any(v is r for v in vs for r in self.refs) or
                    not self.refs)
        c.prove('other entries are as before', all(
            self.cache[k] is cache0[k] for k in cache0))


class KeyOf(Unit):
    """the description of a value determines the value: type and repr of a
    simple one, type and identity of any other (which is then kept alive),
    type and the parts' descriptions of a container taken by value"""
    name = 'Template._cacheKeyOf'
    target = TE + ':_cacheKeyOf'
    recursive = False

    def on_call(self, it, f, args, kw):
        if f is builtins.id and isinstance(args[0], Opaque):
            return ('ID', args[0].n)
        if getattr(f, '__name__', '') == '_cacheKeyOf' and self.depth:
            self.rec.append((args[0], args[1],
                             args[2] if len(args) > 2 else
                             kw.get('byValue', False)))
            return ('part', len(self.rec) - 1)
        return NotImplemented

    def run(self, it):
        c = it.ctx
        self.rec = []
        self.depth = 0
        vals = [None, SBool('b'), SInt('i'), SStr('s'), 2.5, -0.0, b'x',
                Opaque(1), [Opaque(1), Opaque(2)], (Opaque(1),),
                {'k': Opaque(1), 'l': Opaque(2)}, {}, []]
        i = c.choose(len(vals))
        v = vals[i]
        by = bool(c.choose(2))
        refs = []
        fn = self.resolve()
        self.depth = 1
        out = self.outcome(it, fn, [v, refs, by])
        c.prove('returns', out.kind == 'return')
        if out.kind != 'return':
            return
        r = out.value
        if not isinstance(r, tuple):
            raise Unsupported('another kind of description')
        tn = {1: 'bool', 2: 'int', 3: 'str'}.get(i, type(v).__name__)
        c.prove('names the type', r[0] == tn)
        if i < 7:
            c.prove('a simple value by its repr', len(r) == 2 and
                    M.sterm(r[1]) == M.sterm(M.repr_of(it, v))
                    if M.kind_of(r[1]) == 'str' else False)
            c.prove('nothing to keep', refs == [])
        elif i == 7 or not by:
            c.prove('an object by its identity, kept alive',
                    len(refs) == 1 and refs[0] is v and len(r) == 3)
        else:
            parts = list(v.values()) + list(v) if isinstance(v, dict) else \
                list(v)
            c.prove('a container by all of its parts', len(r) == 2 and all(
                any(x is p or isinstance(p, str) and x == p
                    for x, _, _ in self.rec) for p in parts) and
                len(self.rec) == len(parts) and
                sum(map(count, [r[1]])) == len(parts))
            c.prove('nested containers by value, into the same refs', all(
                rr is refs and (b or isinstance(x, str))
                for x, rr, b in self.rec))


def count(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'part':
        return 1
    if isinstance(x, (list, tuple)):
        return sum(map(count, x))
    return 0


class Opaque(object):
    def __init__(self, n):
        self.n = n


UNITS = [Failing, Cached, KeyOf]
