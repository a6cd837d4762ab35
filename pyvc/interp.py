"""Symbolic interpreter for the real source of the functions under contract.

The source text is read with `ast` from the very files the running module was
imported from; nothing is rewritten by hand.  What is *not* modelled raises
Unsupported, which takes the function out of reach (it is then reported as
bounded or undecided, never as proved).
"""
import ast
import builtins
import operator
import types
import z3

from .values import *  # noqa
from .core import Ctx, PathEnd, Unsupported  # noqa


class PyRaise(Exception):
    """an exception of the analysed program"""
    def __init__(self, exc):
        Exception.__init__(self)
        self.exc = exc

    def __repr__(self):
        return 'PyRaise(%s)' % (type(self.exc).__name__,)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class SExc(Exception):
    """an unknown (non-lookup, non-attribute) exception raised by user code,
    identified by a term"""
    def __init__(self, term=None, origin=''):
        Exception.__init__(self)
        self.term = term
        self.origin = origin
    __hash__ = object.__hash__


class VList(list):
    """list created by (or handed to) analysed code: an optional symbolic
    prefix followed by host items"""
    __slots__ = ('pre', 'gen')
    _pyvc = True

    def __init__(self, items=(), pre=None):
        list.__init__(self, items)
        self.pre = pre
        self.gen = False
    __hash__ = object.__hash__

    @property
    def _pyvc_opaque(self):
        return self.pre is not None


class Poison(object):
    _pyvc_opaque = True

    def __init__(self, why):
        self.why = why


class AbsIter(object):
    """abstract iterable: length term and element function"""
    _pyvc_opaque = True

    def __init__(self, n, at, src=None):
        self.n, self.at, self.src = n, at, src


class Closure(object):
    """function or lambda defined by analysed code"""
    _pyvc_opaque = True

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame = node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults

    @property
    def __name__(self):
        return getattr(self.node, 'name', '<lambda>')


class ModelMethod(object):
    """bound method of a symbolic value"""
    _pyvc_opaque = True

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class FModel(object):
    """a host callable that stands for an object inside the analysed program
    (stub supplied by a contract): fn(interp, args, kwargs)"""
    _pyvc_opaque = True

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class Frame(object):
    def __init__(self, globals_, locals_=None, parent=None, name='?',
                 node=None, cells=None):
        self.globals = globals_
        self.locals = {} if locals_ is None else locals_
        self.parent = parent
        self.name = name
        self.node = node
        self.cells = cells or {}
        self.declared_global = set()
        self.declared_nonlocal = set()
        self.assigned = set()
        self.loop_counter = 0
        self.yields = None
        self.exc = []


def assigned_names(stmts):
    """names bound by the statements (not descending into nested defs)"""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
    for s in stmts:
        V().visit(s)
    return out


_BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
_IBIN = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.BitOr: operator.ior,
}
_CMP = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
    ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
}


def kind_of(v):
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    return 'host'


class Interp(object):
    MAXDEPTH = 60

    def __init__(self, ctx, source, unit=None, world=None):
        self.ctx = ctx
        self.source = source      # SourceIndex
        self.unit = unit
        self.world = world
        self.depth = 0
        self.frames = []
        self.writes = []          # stack of write logs (loops)
        self.models = {}          # host callable -> fn(interp, args, kw)
        self.contracts = {}       # repo function -> fn(interp, args, kw)
        self.skip_contract = set()
        self.havoc_calls = False
        self.strict_inline = None
        self.made = {}            # objects built by the analysed code

    # ------------------------------------------------------------ functions
    def call_function(self, f, args, kw):
        """f: a real function object of the repository"""
        node = self.source.node_of(f)
        if node is None:
            raise Unsupported('no source for %r' % (f,))
        cells = {}
        if f.__closure__:
            for nm, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[nm] = c.cell_contents
                except ValueError:
                    pass
        name = '%s:%s' % (f.__module__, f.__qualname__)
        self.ctx.s.inlined.add(name)
        fr = Frame(f.__globals__, parent=None, name=name, node=node,
                   cells=cells)
        return self._invoke(node, fr, args, kw, f.__defaults__ or (),
                            f.__kwdefaults__ or {}, name)

    def _invoke(self, node, fr, args, kw, defaults, kwdefaults, name):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth in %s' % name)
        self.bind(node.args, fr, list(args), dict(kw), defaults, kwdefaults,
                  name)
        if isinstance(node, ast.Lambda):
            self.depth += 1
            self.frames.append(fr)
            try:
                return self.eval(node.body, fr)
            finally:
                self.frames.pop()
                self.depth -= 1
        fr.assigned = assigned_names(node.body) | set(fr.locals)
        todo = list(node.body)
        while todo:
            s = todo.pop()
            if isinstance(s, ast.Global):
                fr.declared_global.update(s.names)
            elif isinstance(s, ast.Nonlocal):
                fr.declared_nonlocal.update(s.names)
            elif not isinstance(s, (ast.FunctionDef, ast.Lambda,
                                    ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(s))
        is_gen = self.source.is_generator(node)
        if is_gen:
            fr.yields = VList()
        self.depth += 1
        self.frames.append(fr)
        try:
            self.exec_block(node.body, fr)
            r = None
        except _Return as e:
            r = e.v
        finally:
            self.frames.pop()
            self.depth -= 1
        if is_gen:
            return fr.yields
        return r

    def bind(self, a, fr, args, kw, defaults, kwdefaults, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        L = fr.locals
        for i, v in enumerate(args[:len(pos)]):
            L[pos[i]] = v
        rest = args[len(pos):]
        if a.vararg:
            L[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError('%s: too many arguments' % name))
        for k in list(kw):
            if k in pos:
                if k in L:
                    raise PyRaise(TypeError('%s: multiple values for %s'
                                            % (name, k)))
                L[k] = kw.pop(k)
        for x in a.kwonlyargs:
            if x.arg in kw:
                L[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                L[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError('%s: missing %s' % (name, x.arg)))
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p not in L:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(TypeError('%s: missing argument %s'
                                            % (name, p)))
                L[p] = defaults[j]
        if a.kwarg:
            L[a.kwarg.arg] = dict(kw)
        elif kw:
            raise PyRaise(TypeError('%s: unexpected %s' % (name, list(kw))))

    def call(self, f, args, kw):
        h = getattr(self.unit, 'on_call', None)
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, FModel):
            return f.fn(self, args, kw)
        if isinstance(f, Closure):
            fr = Frame(f.frame.globals, parent=f.frame,
                       name=f.frame.name + '.' + f.__name__, node=f.node)
            return self._invoke(f.node, fr, args, kw, f.defaults,
                                f.kwdefaults, fr.name)
        if isinstance(f, ModelMethod):
            from . import models
            return models.method(self, f.obj, f.name, args, kw)
        if isinstance(f, Sym):
            if f.kind == 'obj':
                return self.world.call(self, f, args, kw)
            raise PyRaise(TypeError('not callable'))
        if isinstance(f, Poison):
            raise Unsupported('use of ' + f.why)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, types.FunctionType) and \
                    self.source.owns(fn):
                return self.call_repo(fn, [f.__self__] + list(args), kw)
        if isinstance(f, types.FunctionType) and self.source.owns(f):
            return self.call_repo(f, args, kw)
        if isinstance(f, type) and self.source.owns_class(f):
            return self.instantiate(f, args, kw)
        from . import models
        return models.builtin(self, f, args, kw)

    def call_repo(self, fn, args, kw):
        key = '%s:%s' % (fn.__module__, fn.__qualname__)
        c = self.contracts.get(key)
        if c is not None and key not in self.skip_contract:
            self.ctx.s.used_contracts.add(key)
            return c(self, args, kw)
        if not has_sym(list(args)) and not has_sym(kw) \
                and key in getattr(self.unit, 'run_concrete', ()):
            return self.host(fn, args, kw)
        return self.call_function(fn, args, kw)

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            init = cls.__init__
            if isinstance(init, types.FunctionType) and \
                    self.source.owns(init):
                o = cls.__new__(cls)
                self.made[id(o)] = o
                self.call_function(init, [o] + list(args), kw)
                return o
            return cls(*args, **kw)
        new = cls.__new__
        if new is not object.__new__:
            if not has_sym(list(args)) and not has_sym(kw):
                return self.host(cls, args, kw)
            if issubclass(cls, (dict, list, str)):
                raise Unsupported('instantiating %s' % cls)
        o = object.__new__(cls) if new is object.__new__ else new(cls)
        self.made[id(o)] = o
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            if self.source.owns(init):
                self.call_repo(init, [o] + list(args), kw)
            else:
                raise Unsupported('foreign __init__ of %s' % cls)
        return o

    def host(self, f, args, kw):
        try:
            return f(*args, **kw)
        except (PyRaise, PathEnd, Unsupported, SymUse, _Return):
            raise
        except Exception as e:
            raise PyRaise(e)

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, n, fr):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s in %s'
                              % (type(n).__name__, fr.name))
        return m(n, fr)

    def x_Expr(self, n, fr):
        self.eval(n.value, fr)

    def x_Pass(self, n, fr):
        pass

    def x_Global(self, n, fr):
        pass

    def x_Nonlocal(self, n, fr):
        pass

    def x_Return(self, n, fr):
        raise _Return(self.eval(n.value, fr) if n.value else None)

    def x_Break(self, n, fr):
        raise _Break()

    def x_Continue(self, n, fr):
        raise _Continue()

    def x_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)

    def x_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(
                ast.Name(t.id, ast.Load()), t), fr)
            self.store_name(t.id, self.inplace(n.op, cur, self.eval(
                n.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(
                n.op, cur, self.eval(n.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(n.op, cur, self.eval(
                n.value, fr)))
        else:
            raise Unsupported('augmented target')

    def inplace(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add):
            self.extend(a, b)
            return a
        if isinstance(a, list) and isinstance(op, ast.Add):
            self.log_write(a, 'content')
            if isinstance(b, VList) and b.pre is not None:
                raise Unsupported('symbolic tail onto host list')
            return self.host(operator.iadd, [a, b], {})
        return self.binop(op, a, b)

    def extend(self, a, b):
        self.log_write(a, 'content')
        if isinstance(b, VList) and b.pre is not None:
            if a is b:
                raise Unsupported('self-extend')
            c = b.pre.codec
            if a.pre is None:
                pre = z3.Empty(z3.SeqSort(c.sort))
            else:
                if a.pre.codec.sort != c.sort:
                    raise Unsupported('mixed lists')
                pre = a.pre.e
            for x in a:
                pre = z3.Concat(pre, z3.Unit(c.enc(x)))
            a.pre = SList(z3.Concat(pre, b.pre.e), c)
            list.clear(a)
            list.extend(a, list(b))
            return
        if isinstance(b, (Sym, SMap, AbsIter)):
            raise Unsupported('extend by symbolic')
        list.extend(a, list(b))

    def x_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.locals:
                    del fr.locals[t.id]
                else:
                    raise PyRaise(UnboundLocalError(t.id))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                self.log_write(o, 'attr', t.attr)
                self.host(delattr, [o, t.attr], {})
            else:
                raise Unsupported('del')

    def x_If(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            self.exec_block(n.body, fr)
        else:
            self.exec_block(n.orelse, fr)

    def x_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            m = self.eval(n.msg, fr) if n.msg else ''
            raise PyRaise(AssertionError(m))

    def x_FunctionDef(self, n, fr):
        if n.decorator_list:
            raise Unsupported('decorated nested def')
        fr.locals[n.name] = Closure(
            n, fr, [self.eval(d, fr) for d in n.args.defaults],
            {a.arg: self.eval(d, fr)
             for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d})

    def x_ClassDef(self, n, fr):
        # a class without members (a record)
        if [b for b in n.bases if not isinstance(b, ast.Name)
                or b.id != 'object'] or n.keywords or n.decorator_list or not all(
                isinstance(b, ast.Pass) or isinstance(b, ast.Expr)
                and isinstance(b.value, ast.Constant) for b in n.body):
            raise Unsupported('nested class with members')
        fr.locals[n.name] = type(n.name, (object,), {})

    def x_Import(self, n, fr):
        ns = {}
        code = compile(ast.Module([n], []), fr.name, 'exec')
        self.host(lambda: exec(code, fr.globals, ns), [], {})
        fr.locals.update(ns)
    x_ImportFrom = x_Import

    def x_Raise(self, n, fr):
        if n.exc is None:
            for f in reversed(self.frames):
                if f.exc:
                    raise PyRaise(f.exc[-1])
            raise PyRaise(RuntimeError('No active exception to reraise'))
        e = self.eval(n.exc, fr)
        if isinstance(e, type):
            e = self.call(e, [], {})
        if n.cause is not None:
            self.eval(n.cause, fr)
        if isinstance(e, Sym):
            e = SExc(e.e)
        raise PyRaise(e)

    def x_Try(self, n, fr):
        try:
            try:
                self.exec_block(n.body, fr)
            except PyRaise as pr:
                for h in n.handlers:
                    if h.type is None or self.exc_match(
                            pr.exc, self.eval(h.type, fr)):
                        if h.name:
                            self.store_name(h.name, pr.exc, fr)
                        fr.exc.append(pr.exc)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.exc.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, fr)
        except (PyRaise, _Return, _Break, _Continue):
            if n.finalbody:
                self.exec_block(n.finalbody, fr)
            raise
        else:
            if n.finalbody:
                self.exec_block(n.finalbody, fr)

    def exc_match(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, s) for s in spec)
        if isinstance(exc, SExc):
            # an arbitrary exception of user code: a subclass of Exception,
            # not one of the named library classes unless Exception itself
            if spec in (Exception, BaseException):
                return True
            if isinstance(spec, type):
                p = self.world.exc_isinstance(self, exc, spec)
                return self.ctx.decide(p)
        return isinstance(exc, spec)

    def x_With(self, n, fr):
        if len(n.items) != 1:
            raise Unsupported('with')
        it = n.items[0]
        cm = self.eval(it.context_expr, fr)
        v = self.call(self.getattr(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        ex = self.getattr(cm, '__exit__')
        try:
            self.exec_block(n.body, fr)
        except PyRaise as pr:
            if self.truth(self.call(ex, [type(pr.exc), pr.exc, None], {})):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    # ---------------------------------------------------------------- loops
    def x_For(self, n, fr):
        it = self.eval(n.iter, fr)
        self.for_each(n, it, fr,
                      lambda v: self.assign(n.target, v, fr),
                      lambda: self.exec_block(n.body, fr),
                      assigned_names(n.body) | assigned_names([n.target_stmt])
                      if hasattr(n, 'target_stmt') else
                      assigned_names(n.body) | names_in_target(n.target),
                      names_in_target(n.target),
                      (lambda: self.exec_block(n.orelse, fr))
                      if n.orelse else None)

    def for_each(self, node, it, fr, bind, body, carried, targets, orelse):
        ab = self.as_iter(it)
        if not isinstance(ab, AbsIter):
            broke = False
            try:
                if isinstance(ab, list):
                    i = 0
                    while i < len(ab):       # live list iteration
                        if isinstance(ab, VList) and ab.pre is not None:
                            raise Unsupported('list became symbolic')
                        bind(ab[i])
                        i += 1
                        try:
                            body()
                        except _Continue:
                            pass
                else:
                    g = iter(ab)
                    while True:
                        try:
                            v = next(g)
                        except StopIteration:
                            break
                        except RuntimeError as e:
                            raise PyRaise(e)
                        bind(v)
                        try:
                            body()
                        except _Continue:
                            pass
            except _Break:
                broke = True
            if not broke and orelse:
                orelse()
            return
        from .loops import symbolic_for
        symbolic_for(self, node, ab, fr, bind, body, carried, targets, orelse)

    def x_While(self, n, fr):
        from .loops import while_loop
        while_loop(self, n, fr)

    def as_iter(self, it):
        if isinstance(it, VList):
            if it.pre is None:
                return it
            pre, c, tail = it.pre.e, it.pre.codec, list(it)
            ln = z3.Length(pre)
            if not tail:
                return AbsIter(ln, lambda k: c.dec(pre[k]), src=it.pre)
            e = z3.Concat(*([pre] + [z3.Unit(c.enc(x)) for x in tail]))
            return AbsIter(z3.Length(e), lambda k: c.dec(e[k]),
                           src=SList(e, c))
        if isinstance(it, SList):
            return AbsIter(z3.Length(it.e), lambda k: it.codec.dec(it.e[k]),
                           src=it)
        if isinstance(it, AbsIter):
            return it
        if isinstance(it, Sym):
            if it.kind == 'str':
                return AbsIter(z3.Length(it.e),
                               lambda k: SStr(z3.SubString(it.e, k, 1)))
            if it.kind == 'obj':
                return self.world.iter(self, it)
            raise PyRaise(TypeError('not iterable'))
        if isinstance(it, SMap):
            raise Unsupported('iteration over symbolic map')
        if isinstance(it, Poison):
            raise Unsupported('use of ' + it.why)
        if isinstance(it, (list, tuple, dict, str, set, frozenset, range,
                           bytes)) or hasattr(it, '__next__') or \
                hasattr(it, '__iter__'):
            return it
        raise PyRaise(TypeError('not iterable'))

    # ----------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred target')
            if is_sym(v) or (isinstance(v, VList) and v.pre is not None):
                if isinstance(v, Sym) and v.kind == 'obj':
                    v = [self.getitem(v, i) for i in range(len(t.elts))]
                else:
                    ab = self.as_iter(v)
                    if not self.ctx.decide(ab.n == len(t.elts)):
                        raise PyRaise(ValueError('unpack'))
                    v = [ab.at(z3.IntVal(i)) for i in range(len(t.elts))]
            vs = list(v)
            if len(vs) != len(t.elts):
                raise PyRaise(ValueError('unpack'))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def store_name(self, name, v, fr):
        if name in fr.declared_global:
            self.log_write(fr.globals, 'key', name)
            h = getattr(self.unit, 'on_global_store', None)
            if h is None:
                raise Unsupported('global store %s' % name)
            h(self, fr, name, v)
            return
        if name in fr.declared_nonlocal:
            p = fr.parent
            while p is not None and name not in p.locals:
                p = p.parent
            if p is None:
                raise Unsupported('nonlocal %s' % name)
            p.locals[name] = v
            return
        fr.locals[name] = v

    def load_name(self, name, fr):
        if name not in fr.declared_global:
            if name in fr.locals:
                v = fr.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported('use of %s: %s' % (name, v.why))
                return v
            if name in fr.assigned and name not in fr.declared_nonlocal:
                raise PyRaise(UnboundLocalError(name))
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    v = p.locals[name]
                    if isinstance(v, Poison):
                        raise Unsupported('use of %s: %s' % (name, v.why))
                    return v
                p = p.parent
            f = fr
            while f is not None:
                if name in f.cells:
                    return f.cells[name]
                f = f.parent
        h = getattr(self.unit, 'on_global', None)
        if h is not None:
            r = h(self, fr, name)
            if r is not NotImplemented:
                return r
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.why)
        if isinstance(o, Sym):
            if o.kind == 'obj':
                return self.world.getattr(self, o, name)
            return ModelMethod(o, name)
        if isinstance(o, (SList, SMap, AbsIter)):
            return ModelMethod(o, name)
        if isinstance(o, list) or isinstance(o, str) or \
                isinstance(o, (dict, set)):
            if isinstance(o, (list, str, dict, set)) and \
                    type(o) in (list, VList, str, dict, set):
                if not hasattr(type(o), name):
                    raise PyRaise(AttributeError(name))
                return ModelMethod(o, name)
        h = getattr(self.unit, 'on_getattr', None)
        if h is not None:
            r = h(self, o, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, FModel):
            try:
                return getattr(o, name)
            except AttributeError as e:
                raise Unsupported('stub without attribute %s' % name)
        if not isinstance(o, (type, types.ModuleType)):
            st = None
            for c in type(o).__mro__:
                if name in c.__dict__:
                    st = c.__dict__[name]
                    break
            if isinstance(st, property) and st.fget is not None and \
                    isinstance(st.fget, types.FunctionType) and \
                    self.source.owns(st.fget):
                return self.call_repo(st.fget, [o], {})
        try:
            v = getattr(o, name)
        except (PyRaise, PathEnd, Unsupported, SymUse):
            raise
        except AttributeError as e:
            self.check_known(o, name)
            raise PyRaise(e)
        except Exception as e:
            raise PyRaise(e)
        if isinstance(v, Poison):
            raise Unsupported('use of %s: %s' % (name, v.why))
        return v

    def check_known(self, o, name):
        """an object set up by a contract has the attributes the contract
        knows of; that it lacks another one means nothing"""
        if isinstance(o, (type, types.ModuleType)) or id(o) in self.made:
            return
        if (self.source.owns_class(type(o)) or
                type(o).__module__.startswith('contracts.')) and \
                not getattr(self.unit, 'complete_objects', False):
            raise Unsupported('attribute %s of an object set up by the '
                              'contract' % name)

    def setattr(self, o, name, v):
        h = getattr(self.unit, 'on_setattr', None)
        if h is not None:
            r = h(self, o, name, v)
            if r is not NotImplemented:
                return
        if isinstance(o, Sym):
            return self.world.setattr(self, o, name, v)
        self.log_write(o, 'attr', name)
        try:
            setattr(o, name, v)
        except Exception as e:
            raise PyRaise(e)

    def log_write(self, o, what, key=None):
        for log in self.writes:
            log.append((o, what, key))

    # ------------------------------------------------------------- indexing
    def eval_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return slice(
                self.eval(n.lower, fr) if n.lower else None,
                self.eval(n.upper, fr) if n.upper else None,
                self.eval(n.step, fr) if n.step else None)
        return self.eval(n, fr)

    def getitem(self, o, k):
        from . import models
        return models.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import models
        return models.setitem(self, o, k, v)

    def delitem(self, o, k):
        from . import models
        return models.delitem(self, o, k)

    # ---------------------------------------------------------- expressions
    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s in %s'
                              % (type(n).__name__, fr.name))
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Attribute(self, n, fr):
        name = n.attr
        if name.startswith('__') and not name.endswith('__'):
            cls = self.source.class_of_node(fr.node)
            if cls:
                name = '_%s%s' % (cls.lstrip('_'), name)
        return self.getattr(self.eval(n.value, fr), name)

    def e_Subscript(self, n, fr):
        return self.getitem(self.eval(n.value, fr),
                            self.eval_index(n.slice, fr))

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return VList(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return set(self.elts(n.elts, fr))

    def elts(self, ns, fr):
        out = []
        for x in ns:
            if isinstance(x, ast.Starred):
                v = self.as_iter(self.eval(x.value, fr))
                if isinstance(v, AbsIter):
                    raise Unsupported('*symbolic')
                out.extend(v)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                if is_sym(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.eval(v, fr)
        return d

    def e_Lambda(self, n, fr):
        return Closure(n, fr, [self.eval(d, fr) for d in n.args.defaults],
                       {a.arg: self.eval(d, fr) for a, d in
                        zip(n.args.kwonlyargs, n.args.kw_defaults) if d})

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr))
                         else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_BoolOp(self, n, fr):
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not (isinstance(v, Sym) and v.kind == 'bool') \
                    else False
            if isinstance(n.op, ast.Or) and t:
                return v if not (isinstance(v, Sym) and v.kind == 'bool') \
                    else True

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            if isinstance(n.op, ast.USub) and v.kind in ('int', 'real'):
                return Sym(v.kind, -v.e)
            raise Unsupported('unary op')
        return self.host({ast.USub: operator.neg, ast.UAdd: operator.pos,
                          ast.Invert: operator.invert}[type(n.op)], [v], {})

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        return self.binop(n.op, a, self.eval(n.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add) \
                and isinstance(b, list):
            r = VList(list(a), a.pre)
            self.extend(r, b)
            return r
        if isinstance(a, list) and isinstance(op, ast.Add) and \
                isinstance(b, VList):
            r = VList(list(a))
            self.extend(r, b)
            return r
        if not (is_sym(a) or is_sym(b)):
            if isinstance(a, str) and isinstance(op, ast.Mod) and has_sym(b):
                from . import models
                return models.percent(self, a, b)
            if has_sym(a) or has_sym(b):
                if not (isinstance(a, (tuple, list)) and isinstance(
                        op, (ast.Add, ast.Mult))):
                    return self.dunder_bin(op, a, b)
            else:
                r = self.dunder_bin(op, a, b, NotImplemented)
                if r is not NotImplemented:
                    return r
            return self.host(_BIN[type(op)], [a, b], {})
        from . import models
        return models.binop(self, op, a, b)

    def dunder_bin(self, op, a, b, dflt=None):
        nm = {ast.Add: '__add__', ast.Sub: '__sub__',
              ast.Mod: '__mod__'}.get(type(op))
        m = getattr(type(a), nm, None) if nm else None
        if isinstance(m, types.FunctionType) and self.source.owns(m):
            return self.call_repo(m, [a, b], {})
        if dflt is NotImplemented:
            return NotImplemented
        raise Unsupported('operator on structures with symbolic parts')

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if i < len(n.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import models
        return models.compare(self, op, a, b)

    def truth(self, v):
        if isinstance(v, Sym):
            if v.kind == 'bool':
                return self.ctx.decide(v.e)
            if v.kind == 'int':
                return self.ctx.decide(v.e != 0)
            if v.kind == 'real':
                return self.ctx.decide(v.e != 0)
            if v.kind == 'str':
                return self.ctx.decide(z3.Length(v.e) > 0)
            if v.kind == 'obj':
                return self.world.truth(self, v)
        if isinstance(v, VList) and v.pre is not None:
            if list.__len__(v):
                return True
            return self.ctx.decide(z3.Length(v.pre.e) > 0)
        if isinstance(v, SList):
            return self.ctx.decide(z3.Length(v.e) > 0)
        if isinstance(v, SMap):
            from . import models
            return models.map_truth(self, v)
        if isinstance(v, (Closure, FModel, ModelMethod)):
            return True
        if isinstance(v, Poison):
            raise Unsupported('use of ' + v.why)
        if isinstance(v, (list, dict, tuple, set)):
            return len(v) > 0
        m = getattr(type(v), '__bool__', None) or \
            getattr(type(v), '__len__', None)
        if isinstance(m, types.FunctionType) and self.source.owns(m):
            return self.truth(self.call_repo(m, [v], {}))
        return self.host(bool, [v], {})

    def e_Call(self, n, fr):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            raise Unsupported('zero-argument super()')
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars') \
                and not n.args and n.func.id not in fr.locals:
            return dict(fr.locals)
        f = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.as_iter(self.eval(a.value, fr))
                if isinstance(v, AbsIter):
                    raise Unsupported('*symbolic')
                args.extend(v)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if is_sym(v):
                    raise Unsupported('**symbolic')
                kw.update(v)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def e_JoinedStr(self, n, fr):
        from . import models
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115,
                                                                     114):
                    raise Unsupported('format spec')
                x = self.eval(v.value, fr)
                parts.append(models.repr_of(self, x) if v.conversion == 114
                             else models.str_of(self, x))
        return models.concat(self, parts)

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value else None
        f = fr
        self.log_write(f.yields, 'content')
        list.append(f.yields, v)
        return None

    def e_ListComp(self, n, fr):
        acc = VList()
        self.comp(n, n.generators, fr,
                  lambda f: (self.log_write(acc, 'content'),
                             list.append(acc, self.eval(n.elt, f))), acc)
        return acc

    def e_GeneratorExp(self, n, fr):
        # evaluated at once; next() takes from the front
        r = self.e_ListComp(n, fr)
        if isinstance(r, VList):
            r.gen = True
        return r

    def e_SetComp(self, n, fr):
        acc = set()
        self.comp(n, n.generators, fr,
                  lambda f: acc.add(self.eval(n.elt, f)), acc)
        return acc

    def e_DictComp(self, n, fr):
        acc = {}

        def add(f):
            k = self.eval(n.key, f)
            if is_sym(k):
                raise Unsupported('symbolic dict key')
            acc[k] = self.eval(n.value, f)
        self.comp(n, n.generators, fr, add, acc)
        return acc

    def comp(self, n, gens, fr, leaf, acc):
        f = Frame(fr.globals, parent=fr, name=fr.name, node=fr.node)
        f.locals['$acc'] = acc
        f.yields = fr.yields
        self.frames.append(f)
        try:
            self._comp(n, gens, f, leaf)
        finally:
            self.frames.pop()

    def _comp(self, n, gens, f, leaf):
        if not gens:
            leaf(f)
            return
        g = gens[0]
        it = self.eval(g.iter, f)

        def body():
            for c in g.ifs:
                if not self.truth(self.eval(c, f)):
                    return
            self._comp(n, gens[1:], f, leaf)
        self.for_each(g, it, f, lambda v: self.assign(g.target, v, f), body,
                      names_in_target(g.target), names_in_target(g.target),
                      None)


def names_in_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


class SourceIndex(object):
    """maps real function objects of the scratch copy to their AST"""
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self._gen = {}
        self._cls = {}

    def _load(self, filename):
        if filename not in self.mods:
            with open(filename, encoding='utf-8') as f:
                text = f.read()
            tree = ast.parse(text, filename)
            idx = {}

            def walk(node, cls):
                for ch in ast.iter_child_nodes(node):
                    c = cls
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda,
                                       ast.AsyncFunctionDef)):
                        line = min([ch.lineno] + [
                            d.lineno for d in
                            getattr(ch, 'decorator_list', [])])
                        nm = getattr(ch, 'name', '<lambda>')
                        idx.setdefault((nm, line), []).append(ch)
                        self._cls[id(ch)] = cls
                        walk(ch, cls)
                    elif isinstance(ch, ast.ClassDef):
                        walk(ch, ch.name)
                    else:
                        walk(ch, c)
            walk(tree, None)
            self.mods[filename] = (tree, idx, text)
        return self.mods[filename]

    def owns(self, f):
        return f.__code__.co_filename.startswith(self.root)

    def owns_class(self, c):
        return c.__module__.split('.')[0] == 'Cheetah'

    def node_of(self, f):
        if not self.owns(f):
            return None
        tree, idx, text = self._load(f.__code__.co_filename)
        c = idx.get((f.__code__.co_name, f.__code__.co_firstlineno))
        if not c or len(c) != 1:
            return None
        return c[0]

    def class_of_node(self, node):
        return self._cls.get(id(node))

    def is_generator(self, node):
        r = self._gen.get(id(node))
        if r is None:
            r = False

            def walk(x):
                for ch in ast.iter_child_nodes(x):
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda,
                                       ast.ClassDef)):
                        continue
                    if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                        return True
                    if walk(ch):
                        return True
                return False
            r = walk(node)
            self._gen[id(node)] = r
        return r
