"""Path exploration, obligations, solver back ends."""
import os
import subprocess
import tempfile
import time
import z3

from .values import *  # noqa

Z3_FEAS_MS = 1500
Z3_PROVE_MS = 12000
CVC5_S = 20


class PathEnd(Exception):
    """the current path is finished (cut, infeasible, loop back edge)"""


class Unsupported(Exception):
    """construct or call outside the verifier's reach"""


class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.backend = {'z3': 0, 'cvc5': 0}


STATS = Stats()


class Obl(object):
    """one named obligation of one unit, over all the paths it arises on"""
    def __init__(self, unit, name):
        self.unit, self.name = unit, name
        self.instances = 0
        self.discharged = 0
        self.refuted = []      # (model text, exact, path description)
        self.unknown = 0
        self.inexact = 0
        self.backends = {}

    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown or self.inexact:
            return 'unproved'
        return 'discharged'


class Session(object):
    """all paths of one verification unit"""
    def __init__(self, unit, loop_mode='inv', bound=3, max_paths=4000,
                 deadline=None):
        self.unit = unit
        self.euf = False
        self.loop_mode = loop_mode
        self.bound = bound
        self.max_paths = max_paths
        self.deadline = deadline
        self.obls = {}
        self.paths = 0
        self.complete_paths = 0
        self.cut_paths = 0
        self.dropped = {}      # loop site -> set of dropped candidate names
        self.dirty = False
        self.assumptions = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loops = {}
        self.inexact_loops = set()

    def obl(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(self.unit, name)
        return o

    def explore(self, run):
        """run(ctx) is executed once per path, until all are covered and no
        loop-invariant candidate is dropped any more."""
        for rnd in range(40):
            self.dirty = False
            self.obls = {}
            self.paths = self.complete_paths = self.cut_paths = 0
            stack = [[]]
            deferred = None
            while stack:
                if self.paths >= self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget of the unit used up')
                prefix = stack.pop()
                ctx = Ctx(self, prefix, stack)
                self.paths += 1
                try:
                    run(ctx)
                    self.complete_paths += 1
                except PathEnd:
                    pass
                except (SymUse, Unsupported) as e:
                    if isinstance(e, SymUse):
                        e = Unsupported('host operation on a symbolic value:'
                                        ' %s' % e)
                    if self.loop_mode != 'inv' or not self.loops:
                        raise e
                    # another path may still refine the loop state
                    deferred = deferred or e
                if self.dirty and self.loop_mode == 'inv':
                    break
            if not self.dirty:
                if deferred is not None:
                    raise deferred
                return
        raise Unsupported('loop invariant inference did not settle')


_SCALAR = {z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT}
_ARITH = {getattr(z3, 'Z3_OP_' + n) for n in (
    'TRUE FALSE EQ DISTINCT ITE AND OR IFF XOR NOT IMPLIES ANUM LE GE LT GT '
    'ADD SUB UMINUS MUL IDIV MOD TO_REAL TO_INT').split()}


AStr = z3.DeclareSort('AStr')


def _asort(s):
    if s == StrSort:
        return AStr
    if s.kind() in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT,
                    z3.Z3_UNINTERPRETED_SORT):
        return s
    if s.kind() == z3.Z3_SEQ_SORT and _asort(s.basis()) == s.basis():
        return s
    return z3.DeclareSort('A!' + str(s).replace(' ', ''))


def model_holds(solver, pc, neg):
    """z3 answers sat wrongly for some sequence terms: a model in which a
    formula evaluates to false is none"""
    try:
        m = solver.model()
        return not any(z3.is_false(m.eval(f, model_completion=True))
                       for f in [neg] + list(pc) if not z3.is_quantifier(f))
    except z3.Z3Exception:
        return True


class Ctx(object):
    def __init__(self, session, prefix, stack):
        self.s = session
        self.prefix = prefix
        self.stack = stack
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', Z3_FEAS_MS)
        # the same constraints with every term outside arithmetic and
        # propositional logic replaced by an unknown: unsat here is unsat
        self.lite = z3.Solver() if session.euf else \
            z3.SolverFor('QF_LIRA')
        self._lits = []
        self.lite.set('timeout', 500)
        self._abs = {}
        self.counter = {}
        self.exact = True
        self.trace = []          # ghost event trace
        self.ghost = {}          # ghost integer counters etc.
        self.notes = []
        self.objconsts = {}
        self.keep = []
        self.loop_occ = {}

    # ---- names
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    # ---- assumptions
    def assume(self, e):
        if isinstance(e, Sym):
            e = e.e
        if e is True:
            return
        if e is False:
            raise PathEnd()
        self.pc.append(e)
        self.solver.add(e)
        self.lite.add(self.abstract(z3.simplify(e) if self.s.euf else e))

    def abstract(self, e):
        k = e.get_id()
        if k in self._abs:
            return self._abs[k][1]
        if self.s.euf:
            r = self._euf(e)
            self._abs[k] = (e, r)
            return r
        d = e.decl().kind() if z3.is_app(e) else None
        if d in _ARITH and all(c.sort().kind() in _SCALAR
                               for c in e.children()):
            if d in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV,
                     z3.Z3_OP_MOD) and sum(
                         not z3.is_int_value(c) and
                         not z3.is_rational_value(c)
                         for c in e.children()) > 1:
                r = z3.Const('abs!%d' % len(self._abs), e.sort())
            elif e.num_args() == 0:
                r = e
            else:
                r = e.decl()(*[self.abstract(c) for c in e.children()])
        else:
            r = z3.Const('abs!%d' % len(self._abs), e.sort())
        self._abs[k] = (e, r)       # keeps e alive, so the id stays its own
        return r

    def _euf(self, e):
        """the same formula over strings as an uninterpreted sort: every
        string operation is an uninterpreted function, literals are distinct
        constants (weaker, so what is proved of it is proved)"""
        if not z3.is_app(e):
            return z3.Const('abs!%d' % len(self._abs), e.sort())
        if e.sort() == StrSort and z3.is_string_value(e):
            r = z3.Const('lit!' + e.sexpr(), AStr)
            for o in self._lits:
                self.lite.add(o != r)
            self._lits.append(r)
            return r
        kids = [self.abstract(c) for c in e.children()]
        kind = e.decl().kind()
        if kind in _ARITH or kind in (z3.Z3_OP_EQ, z3.Z3_OP_ITE,
                                      z3.Z3_OP_DISTINCT):
            if not kids:
                return e
            if kind == z3.Z3_OP_EQ:
                return kids[0] == kids[1]
            if kind == z3.Z3_OP_ITE:
                return z3.If(*kids)
            if kind == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*kids)
            return e.decl()(*kids)
        if e.sort() != StrSort and _asort(e.sort()) == e.sort() and all(
                c.sort() == k.sort() for c, k in zip(e.children(), kids)):
            return e.decl()(*kids) if kids else e
        f = z3.Function('f!%s!%s' % (e.decl().name(), '.'.join(
            str(k.sort()) for k in kids)), *([k.sort() for k in kids] +
                                             [_asort(e.sort())]))
        return f(*kids)

    def _lite_unsat(self, e):
        STATS.queries += 1
        return self.lite.check(self.abstract(e)) == z3.unsat

    def assume_feasible(self, e):
        self.assume(e)
        if self._check() == z3.unsat:
            raise PathEnd()

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        return r

    # ---- branching
    def decide(self, cond, why=''):
        if isinstance(cond, Sym):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            t = not self._lite_unsat(cond)
            f = not self._lite_unsat(z3.Not(cond))
            if t and f and not self.s.euf:
                t = self._check(cond) != z3.unsat
                f = self._check(z3.Not(cond)) != z3.unsat
            if t and f:
                self.stack.append(self.decisions + [False])
                c = True
            elif t:
                c = True
            elif f:
                c = False
            else:
                raise PathEnd()
        self.decisions.append(c)
        self.pc.append(cond if c else z3.Not(cond))
        self.solver.add(self.pc[-1])
        self.lite.add(self.abstract(self.pc[-1]))
        return c

    def choose(self, n, why=''):
        """demonic choice of 0..n-1"""
        i = len(self.decisions)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.stack.append(self.decisions + [k])
            c = 0
        self.decisions.append(c)
        return c

    # ---- obligations
    def valid(self, cond, want_model=False, budget=None):
        """('proved'|'refuted'|'unknown', info)"""
        if isinstance(cond, Sym):
            cond = cond.e
        if isinstance(cond, bool):
            if cond:
                return 'proved', 'trivial'
            r = self._check()
            if r == z3.unsat:
                return 'proved', 'z3'
            return ('refuted', self._model()) if r == z3.sat and \
                model_holds(self.solver, self.pc, z3.BoolVal(True)) \
                else ('unknown', None)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return 'proved', 'trivial'
        neg = z3.Not(cond)
        if self._lite_unsat(neg):
            return 'proved', 'z3'
        if self.s.euf:
            budget = 1500
        self.solver.set('timeout', budget or Z3_PROVE_MS)
        try:
            r = self._check(neg)
            if r == z3.unsat:
                return 'proved', 'z3'
            if r == z3.sat and model_holds(self.solver, self.pc, neg):
                return 'refuted', self._model()
        finally:
            self.solver.set('timeout', Z3_FEAS_MS)
        if self.s.euf:
            return 'unknown', None
        # a fresh, non-incremental solver often decides what the incremental
        # one gives up on
        for seed in (0, 7, 23):
            fs = z3.Solver()
            fs.set('timeout', 4000)
            fs.set('random_seed', seed)
            fs.add(*self.pc)
            fs.add(neg)
            t = time.time()
            r = fs.check()
            STATS.solver_s += time.time() - t
            STATS.queries += 1
            if r == z3.unsat:
                return 'proved', 'z3'
            if r == z3.sat and model_holds(fs, self.pc, neg):
                m = fs.model()
                return 'refuted', '\n'.join(sorted(
                    '%s = %s' % (d.name(), m[d])
                    for d in m.decls()))[:4000]
        r = cvc5_check(self.pc + [neg])
        if r == 'unsat':
            return 'proved', 'cvc5'
        return 'unknown', None

    def _model(self):
        try:
            m = self.solver.model()
            items = sorted('%s = %s' % (d.name(), m[d]) for d in m.decls())
            return '\n'.join(items)[:4000]
        except z3.Z3Exception:
            return '(no model)'

    def prove(self, name, cond, fatal=False):
        o = self.s.obl(name)
        o.instances += 1
        st, info = self.valid(cond)
        if st == 'proved':
            o.discharged += 1
            o.backends[info] = o.backends.get(info, 0) + 1
            if isinstance(cond, z3.ExprRef):
                self.assume(cond)
        elif st == 'refuted':
            if self.exact:
                o.refuted.append((info, list(self.notes)))
            else:
                o.inexact += 1
        else:
            o.unknown += 1
        return st == 'proved'

    def event(self, *ev):
        self.trace.append(ev)

    def note(self, text):
        self.notes.append(text)


def cvc5_check(assertions):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    body = s.to_smt2()
    text = '(set-logic ALL)\n' + body
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' %
                                (CVC5_S * 1000), path],
                               capture_output=True, text=True,
                               timeout=CVC5_S + 5)
            out = p.stdout.strip().splitlines()
        except (OSError, subprocess.TimeoutExpired):
            out = []
        STATS.solver_s += time.time() - t
        STATS.queries += 1
        if out and out[0] in ('sat', 'unsat'):
            STATS.backend['cvc5'] += 1
            return out[0]
        return 'unknown'
    finally:
        os.unlink(path)
