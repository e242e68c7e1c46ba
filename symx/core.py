"""Path-exhaustive symbolic executor for the real Python code.

The code under test (imported from /repo) is run unmodified on proxy values.  A `Sym` is an SMT term of sort
Real, a `SymBool` a term of sort Bool.  Whenever Python needs the truth value of a symbolic condition the explorer
asks the SMT solver which outcomes are feasible under the path condition and runs the function again once per
feasible outcome, until no unexplored outcome is left.  A claim is discharged when the solver shows that
`path condition and not claim` is unsatisfiable; otherwise the satisfying assignment is handed to the replayer.
"""
import itertools
import math
import numbers
import os
import time
from fractions import Fraction

import numpy as np
import z3

from symx.rational import division_free, expand


class Control(BaseException):
    """Control flow of the executor; BaseException so that code under test does not swallow it."""


class Infeasible(Control):
    pass


class Budget(Control):
    """Path, fork or time budget exhausted: the run is inconclusive."""


class Enough(Control):
    """Enough counterexamples were found."""


class Unsupported(Control):
    """An operation of the code under test has no encoding."""


class SymFloatError(TypeError):
    """float() was called on a symbolic value."""


NAN, INF = np.float64('nan'), np.float64('inf')
_ACTIVE = None  # the running Explorer


def active():
    if _ACTIVE is None:
        raise RuntimeError('no symbolic execution is active')
    return _ACTIVE


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _const(x):
    """z3 numeral of a finite python/numpy number, None if x is not a number."""
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        fx = Fraction(float(x))
        return z3.RealVal(fx.numerator) if fx.denominator == 1 else z3.Q(fx.numerator, fx.denominator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    return None


def _special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def lift(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x.item())
    return _const(x)


def _isnum(e):
    return z3.is_rational_value(e)


def mk(e):
    return Sym(e)


def _frac(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


class Sym:
    """A symbolic real number."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # -- arithmetic ---------------------------------------------------------------------------------------------
    @staticmethod
    def _other(o):
        if isinstance(o, Sym):
            return o.e
        if _special(o):
            return o
        return lift(o)

    def __add__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            return np.float64(b)
        if _isnum(b) and b.numerator_as_long() == 0:
            return self
        if _isnum(self.e) and self.e.numerator_as_long() == 0:
            return Sym(b)
        return Sym(self.e + b)
    __radd__ = __add__

    def __sub__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            return -np.float64(b)
        if _isnum(b) and b.numerator_as_long() == 0:
            return self
        return Sym(self.e - b)

    def __rsub__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            return np.float64(b)
        return Sym(b - self.e)

    def __mul__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            if b != b:
                return NAN
            if decide(self.e == 0):
                return NAN
            return np.float64(b) if decide(self.e > 0) else -np.float64(b)
        if _isnum(b):
            v = _frac(b)
            if v == 0:
                return np.float64(0)
            if v == 1:
                return self
            if v == -1:
                return -self
        if _isnum(self.e):
            v = _frac(self.e)
            if v == 0:
                return np.float64(0)
            if v == 1:
                return Sym(b)
        return Sym(self.e * b)
    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        """a / b with numpy float64 semantics for a zero divisor."""
        if _isnum(b):
            nz = b.numerator_as_long() != 0
        else:
            nz = not decide(b == 0)
        if nz:
            return Sym(a / b)
        if decide(a > 0):
            return INF
        if decide(a < 0):
            return -INF
        return NAN

    def __truediv__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            return NAN if b != b else np.float64(0)
        return self._div(self.e, b)

    def __rtruediv__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            if b != b:
                return NAN
            return np.float64(b) if decide(self.e >= 0) else -np.float64(b)
        return self._div(b, self.e)

    def __floordiv__(self, o):
        r = self.__truediv__(o)
        return r if r is NotImplemented or not isinstance(r, Sym) else float(r.__floor__())

    def __rfloordiv__(self, o):
        r = self.__rtruediv__(o)
        return r if r is NotImplemented or not isinstance(r, Sym) else float(r.__floor__())

    def __mod__(self, o):
        q = self.__floordiv__(o)
        return q if q is NotImplemented else self - q * o

    def __neg__(self):
        return Sym(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e))

    fabs = __abs__

    def __pow__(self, n):
        if isinstance(n, (int, np.integer)) or (isinstance(n, (float, np.floating)) and float(n).is_integer()):
            n = int(n)
            if 0 <= n <= 4:
                r = 1.0
                for _ in range(n):
                    r = self * r
                return r
            if -2 <= n < 0:
                return 1 / (self ** -n)
        if isinstance(n, (float, np.floating)) and n == 0.5:
            return self.sqrt()
        raise Unsupported('power')

    def sqrt(self):
        """Non-negative root, nan for a negative argument (as numpy)."""
        if decide(self.e < 0):
            return NAN
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            f = _frac(e)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Sym(z3.Q(n, d))

        def make():
            r = active().fresh('sqrt')
            active().assume(z3.And(r >= 0, r * r == self.e))
            return Sym(r)
        return active().remember('sqrt', [self], make)

    def _transcendental(self, kind, about):
        """An unknown function with the given bounds of its values (equal arguments give equal values)."""
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return float(getattr(np, kind)(float(_frac(e))))

        def make():
            r = active().fresh(kind)
            active().assume(about(r, self.e))
            return Sym(r)
        return active().remember(kind, [self], make)

    def exp(self):
        return self._transcendental('exp', lambda r, x: r > 0)

    def log(self):
        if decide(self.e <= 0):
            return -np.inf if decide(self.e == 0) else NAN
        return self._transcendental('log', lambda r, x: z3.BoolVal(True))

    def tanh(self):
        return self._transcendental('tanh', lambda r, x: z3.And(r > -1, r < 1))

    def cosh(self):
        return self._transcendental('cosh', lambda r, x: r >= 1)

    def sinh(self):
        if decide(self.e == 0):
            return 0.
        return self._transcendental('sinh', lambda r, x: r != 0)

    def sin(self):
        return self._transcendental('sin', lambda r, x: z3.And(r >= -1, r <= 1))

    def cos(self):
        return self._transcendental('cos', lambda r, x: z3.And(r >= -1, r <= 1))

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def absolute(self):
        return abs(self)

    def negative(self):
        return -self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def conjugate(self):
        return self

    def square(self):
        return self * self

    def sign(self):
        return Sym(z3.If(self.e > 0, z3.RealVal(1), z3.If(self.e < 0, z3.RealVal(-1), z3.RealVal(0))))

    def item(self):
        return self

    @property
    def real(self):
        return self

    # -- comparisons --------------------------------------------------------------------------------------------
    def _cmp(self, o, op, nan=False):
        b = self._other(o)
        if b is None:
            return NotImplemented
        if isinstance(b, (float, np.floating)):
            if b != b:
                return nan
            return {'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0, 'eq': False, 'ne': True}[op]
        a = self.e
        if op == 'lt':
            return SymBool(a < b)
        if op == 'le':
            return SymBool(a <= b)
        if op == 'gt':
            return SymBool(a > b)
        if op == 'ge':
            return SymBool(a >= b)
        if a.eq(b):
            return op == 'eq'
        return SymBool(a == b if op == 'eq' else a != b)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne', True)
    def __hash__(self): return 7

    # -- conversions --------------------------------------------------------------------------------------------
    def __bool__(self):
        return decide(self.e != 0)

    def __float__(self):
        if z3.is_rational_value(self.e):
            return float(_frac(self.e))
        return active().concretise(self)

    def is_integer(self):
        return decide(self.e == z3.ToReal(z3.ToInt(self.e)))

    def _split(self, lo, hi):
        """Case split: the integer k with lo(k) <= e < hi(k), outwards from 0, within the explorer's int bound."""
        ex = active()
        for k in itertools.chain([0], *([k, -k] for k in range(1, ex.int_bound + 1))):
            if decide(z3.And(self.e >= lo(k), self.e < hi(k))):
                return k
        raise Budget('integer conversion beyond the bound %d' % ex.int_bound)

    def __floor__(self):
        return self._split(lambda k: k, lambda k: k + 1)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if decide(self.e >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __int__(self):
        return self.__trunc__()

    def floor(self):
        return float(self.__floor__())

    def ceil(self):
        return float(self.__ceil__())

    def trunc(self):
        return float(self.__trunc__())

    def rint(self):
        return float(self.__round__())

    def __round__(self, ndigits=None):
        if ndigits:
            return np.float64(round(float(self), ndigits))
        f = self.__floor__()
        d = self - f
        if decide(d.e < z3.Q(1, 2)):
            r = f
        elif decide(d.e > z3.Q(1, 2)):
            r = f + 1
        else:
            r = f if f % 2 == 0 else f + 1
        return r if ndigits is None else float(r)

    def __repr__(self): return '<sym>'
    def __str__(self): return '<sym>'
    def __format__(self, spec): return '<sym>'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise Unsupported('pickle of a symbolic value')


numbers.Number.register(Sym)


def bexpr(x):
    """z3 Bool of a python/numpy/symbolic truth value."""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_, int, float, np.generic)):
        return z3.BoolVal(bool(x))
    raise TypeError('not a truth value: %r' % (type(x),))


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self): return decide(self.e)
    def __and__(self, o): return SymBool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__
    def __xor__(self, o): return SymBool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__
    def __invert__(self): return SymBool(z3.Not(self.e))
    def __eq__(self, o):
        try:
            return SymBool(self.e == bexpr(o))
        except TypeError:
            return NotImplemented
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r
    def __hash__(self): return 11
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return Sym(lift(self)) + o
    __radd__ = __add__
    def __sub__(self, o): return Sym(lift(self)) - o
    def __rsub__(self, o): return o - Sym(lift(self))
    def __mul__(self, o): return Sym(lift(self)) * o
    __rmul__ = __mul__
    def __neg__(self): return -Sym(lift(self))
    def __repr__(self): return '<symbool>'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def decide(e):
    return active().decide(e)


# ---------------------------------------------------------------------------------------------------------------
class Stats:
    FIELDS = ('paths', 'forks', 'queries', 'solver_s', 'claims', 'discharged', 'trivial', 'infeasible', 'unknown_branch')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Counterexample(Exception):
    def __init__(self, claim, models, detail=''):
        super().__init__(claim)
        self.claim, self.models, self.detail = claim, models, detail


class Explorer:
    """Explores every feasible path of fn(ctx)."""

    def __init__(self, fn, seed=1, max_paths=20000, deadline=None, int_bound=8, branch_ms=1500, max_cexs=4, claim_ms=60000,
                 logic=None, want_models=3, sample_every=0):
        self.fn, self.seed = fn, seed
        self.max_paths, self.int_bound = max_paths, int_bound
        self.deadline = deadline
        self.max_cexs = max_cexs
        self.branch_ms, self.claim_ms = branch_ms, claim_ms
        self.logic = logic
        self.stats = Stats()
        self.notes = {}
        self.cexs = []          # (claim, [models], detail)
        self.inconclusive = []
        self.reached = {}       # label -> count
        self.path_models = []   # models of explored paths (encoding validation)
        self.want_models = want_models
        self.sample_every = sample_every
        self.samples = []

    # -- solver -------------------------------------------------------------------------------------------------
    def _mk_solver(self):
        s = z3.Solver() if not self.logic else z3.SolverFor(self.logic)
        s.set('random_seed', self.seed)
        return s

    def _check(self, s, ms):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        s.set('timeout', ms)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    # -- used by Sym ---------------------------------------------------------------------------------------------
    def fresh(self, base):
        self._n_fresh += 1
        return z3.Real('%s!%d' % (base, self._n_fresh))

    def remember(self, kind, args, make):
        """The result of an earlier call with structurally equal arguments on this path: models are functions."""
        exprs = [z3.simplify(lift(a)) for a in args]
        key = (kind,) + tuple(e.get_id() for e in exprs)
        if key not in self.memo:
            self.memo[key] = (make(), exprs)          # the expressions are kept alive, so that ids stay unique
        return self.memo[key][0]

    def fresh_sym(self, base):
        return Sym(self.fresh(base))

    def assume(self, e, contract=True):
        """Add a constraint; contract=True marks constraints on stub outputs (kept for models too)."""
        e = division_free(bexpr(e))
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def require(self, e):
        """Precondition of the harness: prune the path if it cannot hold."""
        e = z3.simplify(bexpr(e))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible
        self.assume(e)
        self._sat_or_prune()

    def _sat_or_prune(self):
        if self.model is not None:
            return
        r = self._check(self.solver, self.branch_ms)
        if r == z3.unsat:
            self.stats.infeasible += 1
            raise Infeasible
        if r == z3.sat:
            self.model = self.solver.model()

    def decide(self, e):
        e = division_free(z3.simplify(e))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats.forks += 1
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            self._take(e, v)
            return v
        key = None
        feas = {}
        if self.model is not None:
            mv = self.model.eval(e, model_completion=True)
            if z3.is_true(mv):
                feas[True] = self.model
            elif z3.is_false(mv):
                feas[False] = self.model
        for v in (True, False):
            if v in feas:
                continue
            self.solver.push()
            self.solver.add(e if v else z3.Not(e))
            r = self._check(self.solver, self.branch_ms)
            if r == z3.sat:
                feas[v] = self.solver.model()
            elif r == z3.unknown:
                r2 = self._retry(self.pc + [e if v else z3.Not(e)], self.branch_ms * 2)
                if r2[0] == z3.sat:
                    feas[v] = r2[1]
                elif r2[0] == z3.unknown:
                    feas[v] = None       # treated as feasible: sound, the claim is checked under this branch
                    self.stats.unknown_branch += 1
            self.solver.pop()
        if not feas:
            self.stats.infeasible += 1
            raise Infeasible
        v = True if True in feas else False
        if len(feas) == 2:
            self.todo.append((self.taken + [not v], self.concolic))
        self.prefix = self.taken + [v]
        self._take(e, v)
        self.model = feas[v]
        return v

    def concretise(self, sym):
        """float() of a symbolic value.  Not encodable: the path is abandoned with SymFloatError and run again in
        concolic mode, where the value is fixed to one the solver picks (an under-approximation, reported)."""
        if not self.concolic:
            self.note('float() of a symbolic value')
            self.float_seen = True
            raise SymFloatError('float() of a symbolic value')
        i = self.pos
        self.pos += 1
        if i < len(self.prefix) and isinstance(self.prefix[i], Fraction):
            v = self.prefix[i]
        else:
            if self.model is None:
                self._sat_or_prune()
            if self.model is None:
                raise Unsupported('no model for a concretised value')
            v = val_of(self.model, sym.e)
            snap = Fraction(round(v * 4), 4)
            if snap != v and self._check_with(sym.e == z3.Q(snap.numerator, snap.denominator)) == z3.sat:
                v = snap
            self.prefix = self.taken + [v]
        self.taken.append(v)
        self.concretised += 1
        self.assume(sym.e == z3.Q(v.numerator, v.denominator))
        return float(v)

    def _check_with(self, e):
        self.solver.push()
        self.solver.add(e)
        r = self._check(self.solver, self.branch_ms)
        self.solver.pop()
        return r

    def _take(self, e, v):
        e = e if v else z3.Not(e)
        self.taken.append(v)
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def _retry(self, fs, ms):
        """Second opinion on a query z3's incremental core left open."""
        for make in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA'),
                     lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            try:
                s = make()
                s.add(fs)
                r = self._check(s, ms)
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def solve(self, fs, ms=None):
        ms = ms or self.claim_ms
        s = self._mk_solver()
        s.add(fs)
        r = self._check(s, min(ms, 5000))
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None)
        r = self._retry(fs, min(ms, 20000))
        if r[0] != z3.unknown:
            return r
        s = self._mk_solver()
        s.add(fs)
        r = self._check(s, ms)
        return r, (s.model() if r == z3.sat else None)

    # -- claims --------------------------------------------------------------------------------------------------
    def claim(self, name, cond, strong=None):
        """cond must hold on this path; `strong` is an optional stronger form of the violation (margin)."""
        e = z3.simplify(bexpr(cond))
        self.stats.claims += 1
        self.reached[name] = self.reached.get(name, 0) + 1
        if z3.is_true(e):
            self.stats.discharged += 1
            self.stats.trivial += 1
            # a claim that holds syntactically still needs a feasible path to count
            return
        e = division_free(e)
        if z3.is_true(expand(e)):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        bad = z3.Not(e)
        self.solver.push()
        self.solver.add(bad)
        r = self._check(self.solver, 1500)
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            r, m = self.solve(self.pc + [bad])
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            # look for a counterexample on a coarse grid before giving up
            m = self._grid_model(self.pc + [bad])
            if m is None:
                self.inconclusive.append('claim %s: solver answered unknown' % name)
                return
        models = []
        nice = [z3.And(v >= -16, v <= 16) for v, _ in self.inputs.values() if z3.is_real(v)]
        for extra in ([bexpr(strong)] if strong is not None else []) + [bad]:
            fs = self.pc + [extra]
            r2, m2 = self.solve(fs + nice, 8000)
            if r2 == z3.sat:
                models.append(self.assignment(m2, fs + nice))
                continue
            r2, m2 = self.solve(fs, 8000) if extra is not bad else (z3.sat, m)
            if r2 == z3.sat:
                models.append(self.assignment(m2, fs))
        self.cexs.append((name, models, 'claim'))
        if len(self.cexs) >= self.max_cexs:
            raise Enough
        raise Infeasible   # this path is settled: it violates a claim

    def _grid_model(self, fs):
        s = self._mk_solver()
        s.add(fs)
        for n, (v, _) in self.inputs.items():
            if z3.is_real(v):
                s.add(z3.Or([v == z3.Q(k, 2) for k in range(-6, 7)]))
        try:
            if self._check(s, 10000) == z3.sat:
                return s.model()
        except Budget:
            pass
        return None

    def assignment(self, model, fs=None):
        """Concrete input values; snapped to short dyadic numbers where that still satisfies fs."""
        raw = {n: val_of(model, v) for n, (v, _) in self.inputs.items()}
        if fs is not None:
            for den in (4, 64, 1024):
                snapped = {n: (Fraction(round(x * den), den) if isinstance(x, Fraction) else x)
                           for n, x in raw.items()}
                sub = [(v, _val(v, snapped[n])) for n, (v, _) in self.inputs.items()]
                g = z3.simplify(z3.substitute(z3.And(fs), *sub))
                if z3.is_true(g):
                    raw = snapped
                    break
                if not z3.is_false(g) and self._has_fresh:
                    s = self._mk_solver()
                    s.add(g)
                    try:
                        if self._check(s, 1500) == z3.sat:
                            raw = snapped
                            break
                    except Budget:
                        break
        return {n: (float(x) if isinstance(x, Fraction) else x) for n, x in raw.items()}

    @property
    def _has_fresh(self):
        return self._n_fresh > 0

    # -- exploration ---------------------------------------------------------------------------------------------
    def run(self, make_ctx):
        global _ACTIVE
        self.todo = [([], False)]
        self.concolic_paths = 0
        self.harness_errors = []
        self.unencoded = []     # (detail, model) of paths whose exception may be an artefact of the encoding
        try:
            while self.todo:
                if self.stats.paths >= self.max_paths:
                    raise Budget('path budget %d' % self.max_paths)
                self.prefix, self.concolic = self.todo.pop()
                self.float_seen, self.concretised = False, 0
                self.pos, self.taken, self.pc = 0, [], []
                self.model = None
                self._n_fresh = 0
                self.memo = {}
                self.inputs = {}
                self.solver = self._mk_solver()
                ctx = make_ctx(self)
                _ACTIVE = self
                try:
                    self.fn(ctx)
                except Infeasible:
                    continue
                except Unsupported as err:
                    self.stats.paths += 1
                    self._unencoded('unsupported operation: %s' % err)
                    continue
                except Exception as err:   # the code under test raised: a candidate violation, decided by replay
                    if self.float_seen and not self.concolic:
                        self.todo.append((self.taken, True))
                        continue
                    self.stats.paths += 1
                    self._exception(err)
                    continue
                finally:
                    _ACTIVE = None
                self.stats.paths += 1
                if self.concretised:
                    self.concolic_paths += 1
                self._sample_path(ctx)
        except Budget as err:
            self.inconclusive.append('budget: %s' % err)
        except Enough:
            pass
        finally:
            _ACTIVE = None
        return self

    def _unencoded(self, detail):
        r, m = self.solve(self.pc, 10000) if self.model is None else (z3.sat, self.model)
        if r == z3.unsat:
            return
        self.unencoded.append((detail, self.assignment(m, self.pc) if r == z3.sat else None))

    def _exception(self, err):
        import traceback
        tb = traceback.extract_tb(err.__traceback__)
        where = next((f for f in reversed(tb) if '/qtune/' in f.filename), None)
        if where is None:          # the harness cannot use a result of the code; confirmed or refuted by the replay
            where = tb[-1]
        detail = '%s: %s at %s:%d' % (type(err).__name__, str(err)[:200], os.path.basename(where.filename), where.lineno)
        r, m = self.solve(self.pc) if self.model is None else (z3.sat, self.model)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            m = self._grid_model(self.pc)
            if m is None:
                self.inconclusive.append('exception on a path of unknown feasibility: ' + detail)
                return
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exception(err)
        nice = [z3.And(v >= -16, v <= 16) for v, _ in self.inputs.values() if z3.is_real(v)]
        r2, m2 = self.solve(self.pc + nice, 5000)
        if r2 == z3.sat:
            m = m2
        self.cexs.append(('no unexpected exception', [self.assignment(m, self.pc)], detail))
        if sum(1 for c in self.cexs if c[0] == 'no unexpected exception') >= self.max_cexs:
            raise Enough

    def _sample_path(self, ctx):
        n = self.stats.paths
        if len(self.path_models) < self.want_models or (n & (n - 1)) == 0 or (self.sample_every and n % self.sample_every == 0):
            if self.model is None:
                r, m = self.solve(self.pc, 10000)
                if r != z3.sat:
                    if r == z3.unsat:
                        self.stats.infeasible += 1
                    return
                self.model = m
            a = self.assignment(self.model, self.pc)
            self.path_models.append(a)


def _val(v, x):
    if z3.is_bool(v):
        return z3.BoolVal(bool(x))
    if z3.is_int(v):
        return z3.IntVal(int(x))
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


def val_of(model, v):
    r = model.eval(v, model_completion=True)
    if z3.is_bool(v):
        return z3.is_true(r)
    if z3.is_int(v):
        return r.as_long()
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_algebraic_value(r):
        r = r.approx(30)
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    raise Unsupported('model value %s' % r)
