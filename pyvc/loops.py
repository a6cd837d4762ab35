"""Loop rules.

mode 'inv'     : for a loop of unbounded length, the conjunction of the
                 surviving invariant candidates is asserted on entry, the
                 loop-carried state is havocked, the candidates are assumed,
                 the body is executed once for an arbitrary iteration k and
                 the candidates are asserted again for k+1 (Houdini: what
                 cannot be proved is dropped and the unit is re-verified).
mode 'bounded' : the loop is unrolled exactly, `bound` times; longer runs are
                 cut (the unit is then labelled bounded).
"""
import ast
import z3

from .values import *  # noqa
from .core import PathEnd, Unsupported
from . import interp as I


class LoopInfo(object):
    pass


def drop_log(it, log):
    it.writes[:] = [w for w in it.writes if w is not log]


def reach(it, fr):
    """ids of host objects reachable from the live frames -> access path"""
    out = {}
    todo = []
    for d, f in enumerate(it.frames):
        todo.append((f.locals, ('frame', d), 0, True))
        if f.yields is not None:
            todo.append((f.yields, ('yields', d), 0, False))
        p = f.parent
        j = 0
        while p is not None:
            todo.append((p.locals, ('parent', d, j), 0, True))
            p = p.parent
            j += 1
    while todo:
        o, path, dep, isframe = todo.pop(0)
        if id(o) in out or dep > 7:
            continue
        if isinstance(o, (str, int, float, type(None), type, Sym, bytes)):
            continue
        if not isframe:
            out[id(o)] = (path, o)
        if isinstance(o, dict):
            for k, v in list(o.items()):
                if not is_sym(k) and isinstance(k, (str, int, tuple)):
                    todo.append((v, path + (('k', k),), dep + 1, False))
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(list(o)):
                todo.append((v, path + (('i', i),), dep + 1, False))
        elif hasattr(o, '__dict__') and not callable(o) or \
                isinstance(o, I.FModel):
            for k, v in list(vars(o).items()):
                todo.append((v, path + (('a', k),), dep + 1, False))
        elif hasattr(o, '__self__'):
            todo.append((o.__self__, path + ('self',), dep + 1, False))
    return out


def codec_for(it, v):
    k = I.kind_of(v)
    cs = it.unit.codecs() if hasattr(it.unit, 'codecs') else {}
    from . import models
    if k in ('str', 'int', 'bool', 'obj'):
        return models.CODECS[k]
    if isinstance(v, tuple):
        key = tuple(I.kind_of(x) for x in v)
        c = models.tuple_codec(key)
        if c is not None:
            return c
    if cs.get('host'):
        return cs['host']
    raise Unsupported('list element of kind %s in unbounded loop' % (k,))


def vkind(v):
    """abstract kind of a loop-carried value"""
    if isinstance(v, Sym):
        return v.kind
    if isinstance(v, I.VList):
        if v.pre is not None:
            return ('vlist', v.pre.codec.name)
        return 'hostlist'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'real'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, I.Poison):
        return 'poison'
    return 'host'


def havoc_value(it, kind, entry, name):
    c = it.ctx
    nm = c.fresh('lv_' + name)
    if kind == 'int':
        return SInt(z3.Int(nm))
    if kind == 'real':
        return SReal(z3.Real(nm))
    if kind == 'bool':
        return SBool(z3.Bool(nm))
    if kind == 'str':
        return SStr(z3.String(nm))
    if kind == 'obj':
        return SObj(z3.Const(nm, ObjSort))
    if kind == 'same':
        return entry
    raise Unsupported('cannot havoc %s of kind %s' % (name, kind))


def to_term(it, v):
    """z3 term of a scalar value, or None"""
    from . import models
    if isinstance(v, Sym):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(v)
    if isinstance(v, str):
        return zstr(v)
    return None


def list_term(v, codec):
    e = v.pre.e if v.pre is not None else z3.Empty(z3.SeqSort(codec.sort))
    for x in v:
        e = z3.Concat(e, z3.Unit(codec.enc(x)))
    return e


class Carried(object):
    """state carried around one loop"""
    def __init__(self, it, fr, node, site, names, targets):
        self.it, self.fr, self.site = it, fr, site
        s = it.ctx.s
        self.info = s.loops.setdefault(site, {'kinds': {}, 'heap': {}})
        self.names = sorted(names)
        self.targets = targets
        self.entry = {}
        self.heap_entry = {}
        self.reach = reach(it, fr)
        self.paths = {p: o for p, o in self.reach.values()}

    def owner(self, name):
        return self.fr.locals

    def snapshot(self):
        for n in self.names:
            if n in self.fr.locals and not isinstance(
                    self.fr.locals[n], I.Poison):
                self.entry[n] = self.fr.locals[n]
        for (path, what, key), kind in self.info['heap'].items():
            self.heap_entry[(path, what, key)] = self.read_heap(path, what,
                                                                key, True)

    def read_heap(self, path, what, key, snap=False):
        o = self.paths.get(path)
        if o is None:
            raise Unsupported('loop heap location vanished')
        if what == 'attr':
            v = o.__dict__.get(key, I.Poison('unset'))
        elif what == 'key':
            v = o.get(key, I.Poison('unset'))
        else:
            v = o
        if snap and isinstance(v, I.VList):
            v = I.VList(list(v), v.pre)
        if snap and isinstance(v, SMap):
            v = SMap(v.dom, v.val, v.kc, v.vc, v.name)
        return v

    def havoc(self):
        it, fr = self.it, self.fr
        for n in self.names:
            if n in self.targets:
                fr.locals[n] = I.Poison('loop target before/after loop')
                continue
            if n not in self.entry:
                if self.info['kinds'].get(n) is None:
                    fr.locals.pop(n, None)
                    fr.locals[n] = I.Poison('may be unassigned')
                continue
            k = self.info['kinds'].get(n)
            if k is None:
                k = vkind(self.entry[n])
                if k in ('host', 'hostlist', 'poison') or \
                        isinstance(k, tuple):
                    k = 'same'
                self.info['kinds'][n] = k
            fr.locals[n] = havoc_value(it, k, self.entry[n], n)
        for loc, kind in sorted(self.info['heap'].items(), key=repr):
            path, what, key = loc
            o = self.paths.get(path)
            nm = 'hp_%s' % (key or path[-1][-1] if isinstance(
                path[-1], tuple) else key or 'x')
            if what in ('attr', 'key'):
                v = havoc_value(it, kind, self.heap_entry[loc], str(nm))
                if what == 'attr':
                    o.__dict__[key] = v
                else:
                    o[key] = v
            elif isinstance(o, I.VList):
                from . import models
                c = models.codec_by_name(kind)
                o.pre = SList(z3.Const(it.ctx.fresh(str(nm)),
                                       z3.SeqSort(c.sort)), c)
                list.clear(o)
            elif isinstance(o, SMap):
                o.dom = z3.Const(it.ctx.fresh('hpd'), o.dom.sort())
                o.val = z3.Const(it.ctx.fresh('hpv'), o.val.sort())
            else:
                raise Unsupported('heap object of type %s mutated in an '
                                  'unbounded loop' % type(o).__name__)
        for g in list(it.ctx.ghost):
            if isinstance(it.ctx.ghost[g], z3.ExprRef):
                it.ctx.ghost[g] = z3.Const(it.ctx.fresh('gh_' + g),
                                           it.ctx.ghost[g].sort())

    def check_kinds(self, log):
        """after the body: kinds must agree with what was havocked, and all
        heap writes must have been havocked; otherwise refine and restart"""
        it, fr, s = self.it, self.fr, self.it.ctx.s
        for n in self.names:
            if n in self.targets or n not in self.entry:
                continue
            k = self.info['kinds'][n]
            v = fr.locals.get(n, I.Poison('deleted'))
            nk = vkind(v)
            if k == 'same':
                if v is self.entry[n]:
                    continue
                if nk in ('str', 'int', 'bool', 'obj', 'real') and \
                        vkind(self.entry[n]) in (nk, 'host'):
                    raise Unsupported('loop variable %s changes kind' % n)
                raise Unsupported('loop variable %s is rebound to %s'
                                  % (n, nk))
            if nk != k:
                raise Unsupported('loop variable %s changes kind %s -> %s'
                                  % (n, k, nk))
        for o, what, key in log:
            ent = self.reach.get(id(o))
            if ent is None:
                if o is fr.globals:
                    raise Unsupported('global written in a loop')
                continue
            path = ent[0]
            loc = (path, what, key)
            if what == 'content':
                if isinstance(o, I.VList):
                    if loc in self.info['heap']:
                        continue
                    if len(o):
                        c = codec_for(it, o[-1])
                    elif o.pre is not None:
                        c = o.pre.codec
                    else:
                        continue
                    self.info['heap'][loc] = c.name
                    from . import models
                    models.register_codec(c)
                    s.dirty = True
                    raise PathEnd()
                if isinstance(o, SMap):
                    if loc not in self.info['heap']:
                        self.info['heap'][loc] = 'map'
                        s.dirty = True
                        raise PathEnd()
                    continue
                raise Unsupported('%s mutated in an unbounded loop'
                                  % type(o).__name__)
            if loc in self.info['heap']:
                if vkind(self.read_heap(*loc)) != self.info['heap'][loc]:
                    raise Unsupported('heap field changes kind')
                continue
            v = self.read_heap(path, what, key)
            k = vkind(v)
            if k not in ('int', 'str', 'bool', 'obj', 'real'):
                raise Unsupported('field %s of kind %s written in loop'
                                  % (key, k))
            self.info['heap'][loc] = k
            s.dirty = True
            raise PathEnd()

    def state(self):
        L = LoopInfo()
        L.vars = {n: self.fr.locals[n] for n in self.names
                  if n in self.entry and n not in self.targets}
        L.entry = self.entry
        L.heap = {loc: (self.read_heap(*loc), self.heap_entry[loc])
                  for loc in self.info['heap']}
        L.ghost = dict(self.it.ctx.ghost)
        L.ghost_entry = self.ghost_entry
        L.fn = self.fr.name
        L.allvars = self.fr.locals
        return L


def auto_candidates(it, L):
    out = []
    k = L.k
    scal = [(n, v, L.entry[n]) for n, v in sorted(L.vars.items())
            if n in L.entry]
    for loc, (v, e) in sorted(L.heap.items(), key=repr):
        scal.append((repr(loc), v, e))
    for n, v, e in scal:
        if isinstance(v, I.VList):
            if v.pre is None:
                continue
            c = v.pre.codec
            cur = list_term(v, c)
            ent = list_term(e, c)
            out.append(('%s==entry' % n, cur == ent))
            if L.iter is not None and L.iter.src is not None and \
                    L.iter.src.codec.sort == c.sort:
                out.append(('%s==entry+iter[:k]' % n, cur == z3.Concat(
                    ent, z3.Extract(L.iter.src.e, z3.IntVal(0), k))))
                out.append(('len(%s)<=len' % n,
                            z3.Length(cur) <= z3.Length(ent) + k))
            continue
        t, te = to_term(it, v), to_term(it, e)
        if t is None or te is None or t.sort() != te.sort():
            continue
        if isinstance(v, Sym) or isinstance(e, Sym) or v is not e:
            out.append(('%s==entry' % n, t == te))
        if z3.is_int(t):
            out.append(('%s==entry+k' % n, t == te + k))
            out.append(('%s==k' % n, t == k))
            out.append(('%s>=0' % n, t >= 0))
            out.append(('%s>=entry' % n, t >= te))
            out.append(('%s<=entry' % n, t <= te))
            if L.iter is not None:
                out.append(('%s<=n' % n, t <= L.iter.n))
    for g, t in sorted(L.ghost.items()):
        if isinstance(t, z3.ExprRef) and g in L.ghost_entry:
            out.append(('ghost %s==entry' % g, t == L.ghost_entry[g]))
    return out


def site_of(it, node, fr):
    key = (fr.name, getattr(node, 'lineno', 0) or
           node.target.lineno, getattr(node, 'col_offset', 0) or
           getattr(getattr(node, 'target', None), 'col_offset', 0))
    n = it.ctx.loop_occ.get(key, 0)
    it.ctx.loop_occ[key] = n + 1
    return key + (n, tuple(f.name for f in it.frames[:-1]))


def candidates(it, C, k, iterd, st=None):
    L = C.state()
    L.k = k
    L.iter = iterd
    cs = auto_candidates(it, L)
    f = getattr(it.unit, 'candidates', None)
    if f is not None:
        cs += list(f(it, L))
    return cs, L


def axioms(it, L):
    f = getattr(it.unit, 'loop_axioms', None)
    if f is not None:
        for a in f(it, L):
            it.ctx.assume(a)


def assert_cands(it, site, cs, where):
    s = it.ctx.s
    dropped = s.dropped.setdefault(site, set())
    for name, e in cs:
        if name in dropped:
            continue
        st, info = it.ctx.valid(e, budget=3000)
        if st != 'proved':
            dropped.add(name)
            s.dirty = True


def symbolic_for(it, node, ab, fr, bind, body, carried, targets, orelse):
    ctx = it.ctx
    s = ctx.s
    if s.loop_mode == 'bounded':
        k = 0
        try:
            while True:
                if not ctx.decide(ab.n > k):
                    break
                if k >= s.bound:
                    s.cut_paths += 1
                    raise PathEnd()
                bind(ab.at(z3.IntVal(k)))
                try:
                    body()
                except I._Continue:
                    pass
                k += 1
        except I._Break:
            return
        if orelse:
            orelse()
        return
    site = site_of(it, node, fr)
    s.inexact_loops.add(site[0])
    C = Carried(it, fr, node, site, carried, targets)
    C.ghost_entry = dict(ctx.ghost)
    C.snapshot()
    _head(it, C, z3.IntVal(0), ab, site, 'entry')
    ctx.exact = False
    branch = ctx.choose(2, 'loop')
    C.havoc()
    k = z3.Int(ctx.fresh('k'))
    ctx.assume(k >= 0)
    if branch == 0:
        ctx.assume_feasible(k < ab.n)
        _assume(it, C, k, ab, site)
        log = []
        it.writes.append(log)
        try:
            bind(ab.at(k))
            try:
                body()
            except I._Continue:
                pass
            except I._Break:
                # leave the loop from here (else clause skipped); the state
                # is that of this very iteration, nothing to havoc
                return
        finally:
            drop_log(it, log)
        C.check_kinds(log)
        _head(it, C, k + 1, ab, site, 'preserve')
        raise PathEnd()
    ctx.assume_feasible(k == ab.n)
    _assume(it, C, k, ab, site)
    if orelse:
        orelse()


def _head(it, C, k, ab, site, where):
    # kinds known only after havoc; on entry use entry values
    if where == 'entry':
        # provisional kinds so that state() works
        pass
    cs, L = candidates(it, C, k, ab)
    axioms(it, L)
    assert_cands(it, site, cs, where)


def _assume(it, C, k, ab, site):
    cs, L = candidates(it, C, k, ab)
    axioms(it, L)
    dropped = it.ctx.s.dropped.setdefault(site, set())
    for name, e in cs:
        if name not in dropped:
            it.ctx.assume(e)


def while_loop(it, n, fr):
    ctx = it.ctx
    s = ctx.s
    # concrete unrolling as long as the condition is decided without forking
    site = None
    names = I.assigned_names(n.body) | {
        x.target.id for x in ast.walk(n.test)
        if isinstance(x, ast.NamedExpr)}
    count = 0
    while True:
        forks = len(ctx.stack)
        # evaluate the test on a "dry" basis: if nothing symbolic is involved
        # the loop is executed as is
        if s.loop_mode == 'bounded' or _concrete_test(it, n.test, fr):
            before = len(ctx.decisions)
            t = it.truth(it.eval(n.test, fr))
            if not t:
                break
            if len(ctx.decisions) != before or s.loop_mode == 'bounded':
                count += 1
                if s.loop_mode == 'bounded' and count > max(s.bound, 1) * 4:
                    s.cut_paths += 1
                    raise PathEnd()
            else:
                count += 1
            if count > 5000:
                raise Unsupported('long concrete loop')
            try:
                it.exec_block(n.body, fr)
            except I._Continue:
                pass
            except I._Break:
                return
            continue
        return _symbolic_while(it, n, fr, names)
    it.exec_block(n.orelse, fr)


def _concrete_test(it, test, fr):
    """does the loop test read only host values?"""
    if getattr(it.unit, 'concrete_loops', False):
        return True
    if isinstance(test, ast.Constant) and test.value:
        # `while True`: whether it ends depends on the body
        return getattr(it.unit, 'unroll_while_true', False)
    for x in ast.walk(test):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            try:
                v = it.load_name(x.id, fr)
            except I.PyRaise:
                return False
            if isinstance(v, I.VList):
                if v.pre is not None:
                    return False
                continue
            if has_sym(v):
                return False
        elif isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id == 'len':
                continue
            return False
    return True


def _symbolic_while(it, n, fr, names):
    ctx = it.ctx
    s = ctx.s
    site = site_of(it, n, fr)
    s.inexact_loops.add(site[0])
    C = Carried(it, fr, n, site, names, set())
    C.ghost_entry = dict(ctx.ghost)
    C.snapshot()
    _head(it, C, z3.IntVal(0), None, site, 'entry')
    ctx.exact = False
    C.havoc()
    k = z3.Int(ctx.fresh('k'))
    ctx.assume(k >= 0)
    _assume(it, C, k, None, site)
    log = []
    it.writes.append(log)
    try:
        if not it.truth(it.eval(n.test, fr)):
            drop_log(it, log)
            it.exec_block(n.orelse, fr)
            return
        try:
            it.exec_block(n.body, fr)
        except I._Continue:
            pass
        except I._Break:
            return
    finally:
        drop_log(it, log)
    C.check_kinds(log)
    _head(it, C, k + 1, None, site, 'preserve')
    raise PathEnd()
