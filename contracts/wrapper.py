"""Contracts for the command line tool (C15).

os.path.join, basename and dirname are given by their POSIX definitions
(join, basename) or left uninterpreted (dirname: only which directories are
asked for matters); the file system calls are recorded."""
import builtins
import codecs
import os
import shutil
import sys
import z3

from pyvc.values import *  # noqa
from pyvc.core import Unsupported
from pyvc.interp import AbsIter, FModel, PyRaise, VList
from pyvc.loops import list_term
from pyvc.runner import Unit
from pyvc import models as M

CW = 'Cheetah.CheetahWrapper'
S = z3.StringVal
STR = M.CODECS['str']
OBJ = M.CODECS['obj']
dirname = z3.Function('dirname', StrSort, StrSort)
src_at = z3.Function('src_at', z3.IntSort(), StrSort)
abspath = z3.Function('abspath', StrSort, StrSort)
nearest = z3.Function('nearest', StrSort, StrSort, StrSort)
bundle = z3.Function('bundle', StrSort, StrSort, StrSort, StrSort, StrSort,
                     ObjSort)
FIELDS = ('src', 'dst', 'bak', 'base', 'basename')
field = {n: z3.Function('bundle_' + n, ObjSort, StrSort) for n in FIELDS}
join = z3.Function('join', StrSort, StrSort, StrSort)
rest = z3.Function('afterLastSlash', StrSort, StrSort)


def term(v):
    if isinstance(v, str):
        return zstr(v)
    if isinstance(v, Sym) and v.kind == 'str':
        return v.e
    raise Unsupported('not a string: %r' % (v,))


class Opts(object):
    pass


class Paths(Unit):
    euf = True

    def on_call(self, it, f, args, kw):
        if f is os.path.join and len(args) == 2:
            return SStr(join(term(args[0]), term(args[1])))
        if f is os.path.basename:
            return SStr(rest(term(args[0])))
        if f is os.path.dirname:
            return SStr(dirname(term(args[0])))
        if f is os.path.abspath:
            return SStr(abspath(term(args[0])))
        return NotImplemented

    def wrapper(self, it):
        c = it.ctx
        W = self.resolve(CW + ':CheetahWrapper')
        w = object.__new__(W)
        o = Opts()
        for n in ('idir', 'iext', 'odir', 'oext'):
            setattr(o, n, SStr(n))
        for n in ('flat', 'stdout', 'nobackup', 'recurse'):
            setattr(o, n, SBool(n))
        o.verbose, o.debug, o.parallel = True, False, 1
        o.encoding = None
        w.opts = o
        w.searchList = []
        w.pathArgs = []
        w.isCompile = SBool('isCompile')
        w.chatter = FModel(lambda it_, a, k: None, 'chatter')
        w.debug = FModel(lambda it_, a, k: None, 'debug')
        w.warn = FModel(lambda it_, a, k: None, 'warn')
        return w


class GetBundles(Paths):
    """every source is mapped by its own path alone, as documented"""
    name = 'CheetahWrapper._getBundles'
    target = CW + ':CheetahWrapper._getBundles'
    max_paths = 6000
    budget_s = 120

    def on_call(self, it, f, args, kw):
        if f is self.Bundle:
            if args or set(kw) != set(FIELDS):
                raise Unsupported('another kind of bundle')
            vs = [term(kw[n]) for n in FIELDS]
            o = bundle(*vs)
            for n, v in zip(FIELDS, vs):
                it.ctx.assume(field[n](o) == v)
            return SObj(o)
        return Paths.on_call(self, it, f, args, kw)

    # --- the mapping, stated over one source path
    def base_at(self, src):
        slash = join(self.idir, S(''))
        a = z3.If(z3.And(self.idir != S(''), z3.PrefixOf(slash, src)),
                  M.DROP(src, z3.Length(slash)), src)
        return z3.If(z3.And(self.iext != S(''), z3.SuffixOf(self.iext, a)),
                     M.TAKE(a, z3.Length(a) - z3.Length(self.iext)),
                     a)

    def near_def(self, d, b):
        """nearest(d, b): the part of b below the nearest directory from d
        upwards (excluding the root) that contains b, or its last part"""
        s = join(d, S(''))
        return nearest(d, b) == z3.If(
            d == S(''), rest(b), z3.If(
                z3.PrefixOf(s, b), M.DROP(b, z3.Length(s)),
                z3.If(dirname(d) == S('/'), rest(b),
                      nearest(dirname(d), b))))

    def dst_at(self, src):
        b = self.base_at(src)
        return z3.If(
            z3.Bool('flat'), join(self.odir, z3.Concat(rest(b), self.oext)),
            z3.If(z3.And(self.odir != S(''), z3.PrefixOf(S('/'), b)),
                  join(self.odir, z3.Concat(nearest(self.odir, b),
                                            self.oext)),
                  join(self.odir, z3.Concat(b, self.oext))))

    def candidates(self, it, L):
        out = []
        vs = dict(L.vars)
        vs.update((repr(a), b[0]) for a, b in L.heap.items())
        for nm, v in sorted(vs.items()):
            if isinstance(v, VList) and v.pre is not None and \
                    v.pre.codec.name == OBJ.name:
                v = list_term(v, OBJ)
                el = v[self.J]
                out += [(nm + ': one bundle per source',
                         z3.Length(v) == L.k)]
                out += [(nm + ': ' + x, z3.Implies(self.J < L.k, y))
                        for x, y in self.holds(el)]
        if not out:
            for nm, v in L.vars.items():
                e = L.entry.get(nm)
                if self.is_str(v) and self.is_str(e) and \
                        e.e.eq(self.odir):
                    out += [(nm + ': nearest of ' + n, nearest(
                        term(v), b.e) == nearest(self.odir, b.e))
                        for n, b in sorted(it.frames[-1].locals.items())
                        if self.is_str(b) and n != nm and
                        not any(b.e.eq(x) for x in (
                            self.idir, self.iext, self.odir, self.oext))]
        return out

    @staticmethod
    def is_str(v):
        return isinstance(v, Sym) and v.kind == 'str'

    def bases(self, it):
        return [v.e for v in it.frames[-1].locals.values()
                if self.is_str(v)]

    def loop_axioms(self, it, L):
        return [self.near_def(term(v), b) for v in L.vars.values()
                if self.is_str(v) for b in self.bases(it)]

    def holds(self, el):
        return [('source', field['src'](el) == self.J_src),
                ('destination', field['dst'](el) == self.dst_at(self.J_src)),
                ('backup', field['bak'](el) == z3.Concat(
                    field['dst'](el), S('.bak'))),
                ('base name', field['basename'](el) ==
                 rest(self.base_at(self.J_src)))]

    def run(self, it):
        c = it.ctx
        self.Bundle = self.resolve(CW + ':Bundle')
        w = self.wrapper(it)
        for n in ('idir', 'iext', 'odir', 'oext'):
            setattr(self, n, z3.String(n))
        n = z3.Int('n')
        srcs = AbsIter(n, lambda k: SStr(src_at(k)))
        self.J = z3.Int('J')
        self.J_src = src_at(self.J)
        c.assume(z3.And(self.J >= 0, self.J < n))
        c.assume(self.near_def(self.odir, self.base_at(self.J_src)))
        c.assume(z3.Or(self.iext == S(''), z3.Length(self.iext) > 0))
        out = self.outcome(it, self.resolve(), [w, srcs])
        c.prove('returns', out.kind == 'return')
        if out.kind != 'return':
            return
        r = out.value
        if isinstance(r, list):
            r = SList(list_term(r, OBJ), OBJ)
        if not isinstance(r, SList):
            raise Unsupported('another kind of result')
        c.prove('one bundle per source', z3.Length(r.e) ==
                n)
        for n, g in self.holds(r.e[self.J]):
            c.prove(n, g)


class Failure(Exception):
    pass


class Files(Paths):
    """file system calls are recorded in self.ev"""
    euf = True

    def on_call(self, it, f, args, kw):
        n = getattr(f, '__name__', '')
        c = it.ctx
        if f is os.path.exists or f is os.path.isdir or f is os.path.isfile:
            return SBool(self.there(term(args[0])))
        if f in (builtins.open, codecs.open):
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            if mode not in ('w', 'wb'):
                raise Unsupported('opens in mode %r' % (mode,))
            return self.open(it, term(args[0]))
        if f in (shutil.copyfile, shutil.copy, shutil.copy2):
            self.ev.append(('copy', term(args[0]), term(args[1])))
            return None
        if f in (os.makedirs, os.mkdir) or n == 'mkdirsWithPyInitFiles' and \
                self.assume_mkdirs:
            self.ev.append(('mkdir' if f is os.mkdir else 'makedirs',
                            term(args[0]), n))
            return None
        if f is os.path.split:
            t = term(args[0])
            return (SStr(dirname(t)), SStr(rest(t)))
        m = getattr(f, '__module__', '')
        if m in ('posix', 'os', 'shutil', 'posixpath') and f not in (
                os.path.join, os.path.basename, os.path.dirname,
                os.path.abspath):
            raise Unsupported('%s.%s' % (m, n))
        return Paths.on_call(self, it, f, args, kw)

    there = staticmethod(z3.Function('exists', StrSort, z3.BoolSort()))
    assume_mkdirs = True

    def open(self, it, path):
        ev = self.ev
        ev.append(('open', path))
        f = type('FileStub', (object,), {})()

        def write(it_, a, k):
            ev.append(('write', path, a[-1]))

        def close(it_, a, k):
            ev.append(('close', path))
        f.write = FModel(write, 'write')
        f.close = FModel(close, 'close')
        f.__enter__ = FModel(lambda it_, a, k: f, '__enter__')
        f.__exit__ = FModel(close, '__exit__')
        return f


class ProcessBundle(Files):
    """one bundle: its source and nothing else is compiled, its destination
    and nothing else is written, after the backup if one is wanted"""
    name = 'CheetahWrapper._compileOrFillBundle'
    target = CW + ':CheetahWrapper._compileOrFillBundle'
    max_paths = 4000

    def on_call(self, it, f, args, kw):
        n = getattr(f, '__name__', '')
        if f is self.T:
            raise Unsupported('instantiates the base class')
        if f is self.klass:
            self.searched = kw.get('searchList')
            return self.instance
        if f is str and args and args[0] is self.instance:
            if it.ctx.choose(2):
                self.failed = True
                raise PyRaise(Failure('filling fails'))
            return self.OUT
        if n == 'write' and getattr(f, '__self__', None) is sys.stdout:
            self.ev.append(('stdout', args[-1]))
            return None
        return Files.on_call(self, it, f, args, kw)

    def on_method(self, it, o, name, args, kw):
        import re
        if isinstance(o, re.Pattern) and name in ('match', 'fullmatch',
                                                  'search'):
            # whether it is a module name: decided either way
            return True if it.ctx.choose(2) else None
        if o is sys.stdout and name == 'write':
            self.ev.append(('stdout', args[-1]))
            return None
        return NotImplemented

    def run(self, it):
        c = it.ctx
        self.ev = []
        self.failed = False
        w = self.wrapper(it)
        b = Opts()
        for n in FIELDS:
            setattr(b, n, SStr('b_' + n))
        # what _getBundles ensures
        c.assume(z3.String('b_bak') == z3.Concat(z3.String('b_dst'),
                                                 S('.bak')))
        c.assume(z3.String('b_bak') != S(''))
        self.OUT = SStr('OUT')
        self.compiled = []
        self.instance = type('InstStub', (object,), {})()
        self.klass = type('KlassStub', (object,), {})
        unit = self

        class T(object):
            pass

        def comp(it_, a, k):
            unit.compiled.append(dict(k))
            if c.choose(2):
                unit.failed = True
                raise PyRaise(Failure('compilation fails'))
            return unit.OUT if k.get('returnAClass') is False \
                else unit.klass
        T.compile = FModel(comp, 'compile')
        self.T = T
        w._getTemplateClass = FModel(lambda i, a, k: T, 'class')
        self.SET = {}
        w._getCompilerSettings = FModel(lambda i, a, k: self.SET, 'settings')
        enc = c.choose(2)
        w.opts.encoding = 'utf-8' if enc else None
        out = self.outcome(it, self.resolve(), [w, b])
        dst, bak, src = (z3.String('b_' + n) for n in ('dst', 'bak', 'src'))
        ev = self.ev
        kinds = [e[0] for e in ev]
        if not self.compiled:
            c.prove('only a bad module name stops it before compiling',
                    out.kind == 'raise')
            c.prove('then nothing is written', not ev)
            return
        c.prove('one compilation', len(self.compiled) == 1)
        c.prove('of the source of the bundle',
                term(self.compiled[0].get('file', '')) == src)
        c.prove('a module is asked for exactly when compiling',
                z3.Bool('isCompile') == z3.BoolVal(
                    self.compiled[0].get('returnAClass') is False))
        if self.failed:
            c.prove('a failure is reported', out.kind == 'raise')
            c.prove('and nothing is written', not ev)
            return
        c.prove('succeeds', out.kind == 'return')
        stdout, nobackup = z3.Bool('stdout'), z3.Bool('nobackup')
        if 'stdout' in kinds:
            c.prove('standard output only when asked for', stdout)
            c.prove('and then no file is touched',
                    set(kinds) == {'stdout'} and len(ev) == 1)
            c.prove('the output of the template',
                    self.same(ev[0][1]))
            return
        c.prove('a file only without --stdout', z3.Not(stdout))
        ops = [e for e in ev if e[0] in ('open', 'write', 'close')]
        c.prove('opens, writes and closes one file',
                [e[0] for e in ops] == ['open', 'write', 'close'])
        c.prove('the destination of the bundle',
                z3.And(*[e[1] == dst for e in ops]))
        if len(ops) == 3:
            c.prove('the output of the template', self.same(ops[1][2]))
        copies = [e for e in ev if e[0] == 'copy']
        want = z3.And(self.there(dst), z3.Not(nobackup))
        c.prove('a backup exactly when wanted',
                want == z3.BoolVal(len(copies) == 1))
        c.prove('at most one backup', len(copies) <= 1)
        if copies and ops:
            c.prove('the backup is of the destination', z3.And(
                copies[0][1] == dst, copies[0][2] == bak))
            c.prove('the backup comes first',
                    ev.index(copies[0]) < ev.index(ops[0]))
        dirs = [e for e in ev if e[0] in ('makedirs', 'mkdir')]
        d = dirname(dst)
        need = z3.And(d != S(''), z3.Not(self.there(d)))
        c.prove('missing directories are made, no others',
                need == z3.BoolVal(len(dirs) == 1))
        for e in dirs:
            c.prove('the directory of the destination', e[1] == d)
            c.prove('a package exactly when compiling', z3.Bool(
                'isCompile') == z3.BoolVal(e[2] == 'mkdirsWithPyInitFiles'))
            if ops:
                c.prove('before the file is opened',
                        ev.index(e) < ev.index(ops[0]))

    def same(self, v):
        if isinstance(v, Sym) and v.kind == 'str':
            return v.e == self.OUT.e
        return False


class MkDirs(Files):
    """makes the missing directories, each with an empty __init__.py, and
    touches nothing else"""
    name = 'Utils.Misc.mkdirsWithPyInitFiles'
    target = 'Cheetah.Utils.Misc:mkdirsWithPyInitFiles'
    assume_mkdirs = False
    recursive = False

    def on_call(self, it, f, args, kw):
        if getattr(f, '__name__', '') == 'mkdirsWithPyInitFiles' and \
                self.inside:
            self.ev.append(('parents', term(args[0])))
            return None
        return Files.on_call(self, it, f, args, kw)

    def run(self, it):
        c = it.ctx
        self.ev = []
        self.inside = False
        fn = self.resolve()
        self.inside = True
        out = self.outcome(it, fn, [SStr('path')])
        p = z3.String('path')
        c.prove('returns', out.kind == 'return')
        kinds = [e[0] for e in self.ev]
        d = dirname(p)
        c.prove('parents exactly when missing', z3.And(
            d != S(''), z3.Not(self.there(d))) == z3.BoolVal(
                'parents' in kinds))
        made = 'mkdir' in kinds
        c.prove('the directory exactly when missing',
                z3.Not(self.there(p)) == z3.BoolVal(made))
        c.prove('nothing else', kinds == (
            ['parents'] if 'parents' in kinds else []) + (
                ['mkdir', 'open', 'close'] if made else []))
        for e in self.ev:
            if e[0] == 'parents':
                c.prove('its parent', e[1] == d)
            elif e[0] == 'mkdir':
                c.prove('itself', e[1] == p)
            else:
                c.prove('its __init__.py', e[1] == join(
                    p, S('__init__.py')))


class FixExts(Paths):
    name = 'CheetahWrapper._fixExts'
    target = CW + ':CheetahWrapper._fixExts'

    def run(self, it):
        c = it.ctx
        w = self.wrapper(it)
        c.assume(z3.String('oext') != S(''))
        out = self.outcome(it, self.resolve(), [w])
        c.prove('returns', out.kind == 'return')
        for n in ('iext', 'oext'):
            x, y = z3.String(n), term(getattr(w.opts, n))
            c.prove(n + ' gets its dot', y == z3.If(z3.Or(
                x == S(''), z3.PrefixOf(S('.'), x)), x,
                z3.Concat(S('.'), x)))


UNITS = [GetBundles, ProcessBundle, MkDirs, FixExts]
