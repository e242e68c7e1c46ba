"""The harness interface: the same harness runs symbolically (inputs are SMT variables) and concretely (inputs come
from a solver model; the real code runs on ordinary floats, with nothing patched)."""
import logging
import math

import numpy as np
import z3

from symx import core
from symx.core import Sym, SymBool, bexpr

logging.getLogger('qtune').setLevel(logging.CRITICAL + 1)


def isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    return x is None or x != x


class StopPath(Exception):
    """The rest of the harness makes no sense for these concrete inputs."""


class Ctx:
    symbolic = False

    # -- logic on python, numpy and symbolic truth values
    @staticmethod
    def And(*xs):
        if any(isinstance(x, (SymBool, Sym)) for x in xs):
            return SymBool(z3.And([bexpr(x) for x in xs]))
        return all(bool(x) for x in xs)

    @staticmethod
    def Or(*xs):
        if any(isinstance(x, (SymBool, Sym)) for x in xs):
            return SymBool(z3.Or([bexpr(x) for x in xs]))
        return any(bool(x) for x in xs)

    @staticmethod
    def Not(x):
        return ~x if isinstance(x, SymBool) else not bool(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    @staticmethod
    def ite(c, a, b):
        if isinstance(c, SymBool):
            if isnan(a) or isnan(b):
                return a if bool(c) else b
            return Sym(z3.If(c.e, core.lift(a), core.lift(b)))
        return a if c else b

    # -- comparisons of the oracle; a concrete run notes when rounding could decide them
    def _near(self, a, b):
        pass

    def lt(self, a, b):
        self._near(a, b)
        return a < b

    def le(self, a, b):
        self._near(a, b)
        return a <= b

    def gt(self, a, b):
        self._near(a, b)
        return a > b

    def ge(self, a, b):
        self._near(a, b)
        return a >= b

    def reach(self, label):
        raise NotImplementedError

    def close(self, label, a, b, tol=1e-6, scale=0.):
        na, nb = isnan(a), isnan(b)
        if na or nb:
            return self.claim(label, na and nb)
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return self.claim(label, a == b)
        return self._close(label, a, b, tol, scale)

    def close_map(self, label, got, want, tol=1e-6, scale=0.):
        """got: a Series; want: dict label -> value; the same labels and equal values."""
        self.claim(label + ' (labels)', set(got.index) == set(want) and len(got.index) == len(want))
        for k in want:
            if k in got.index:
                self.close(label, got[k], want[k], tol, scale)

    def close_seq(self, label, got, want, tol=1e-6, scale=0.):
        got, want = list(got), list(want)
        self.claim(label + ' (length)', len(got) == len(want))
        for a, b in zip(got, want):
            self.close(label, a, b, tol, scale)

    def close_mat(self, label, got, want, tol=1e-6, scale=0.):
        got = np.asarray(got)
        self.claim(label + ' (shape)', got.shape == (len(want), len(want[0])))
        for i in range(len(want)):
            for j in range(len(want[0])):
                self.close(label, got[i, j], want[i][j], tol, scale)

    def raises(self, label, exc, fn):
        """fn must raise one of exc; returns True if it did."""
        try:
            fn()
        except core.SymFloatError:
            raise
        except exc:
            self.claim(label, True)
            return True
        self.claim(label, False)
        return False

    def completes(self, label, fn):
        """fn must not raise; returns (ok, result)."""
        try:
            r = fn()
        except core.SymFloatError:
            raise
        except StopPath:
            raise
        except Exception as err:
            if self.symbolic:
                raise            # classified and replayed by the explorer
            self.claim(label, False, detail='%s: %s' % (type(err).__name__, err))
            return False, None
        self.claim(label, True)
        return True, r


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, explorer):
        self.ex = explorer

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.ex.inputs[name] = (v, 'real')
        if lo is not None:
            self.ex.assume(v >= core.lift(lo))
        if hi is not None:
            self.ex.assume(v <= core.lift(hi))
        return Sym(v)

    def flag(self, name):
        v = z3.Bool(name)
        self.ex.inputs[name] = (v, 'bool')
        return self.ex.decide(v)

    def choice(self, name, options):
        options = list(options)
        v = z3.Int(name)
        self.ex.inputs[name] = (v, 'int')
        self.ex.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.ex.decide(v == i):
                return options[i]
        return options[-1]

    def integer(self, name, lo, hi):
        v = z3.Int(name)
        self.ex.inputs[name] = (v, 'int')
        self.ex.assume(z3.And(v >= lo, v <= hi))
        return Sym(z3.ToReal(v))

    def maybe_nan(self, name, lo=None, hi=None):
        if self.flag(name + '?nan'):
            return np.nan
        return self.real(name, lo, hi)

    def require(self, cond):
        self.ex.require(cond)

    def claim(self, label, cond, strong=None, detail=None):
        self.ex.claim(label, cond, strong)

    def reach(self, label):
        self.ex.reached[label] = self.ex.reached.get(label, 0) + 1

    def _close(self, label, a, b, tol, scale):
        if any(isinstance(x, (float, np.floating)) and math.isinf(x) for x in (a, b)):
            return self.claim(label, not isinstance(a, Sym) and not isinstance(b, Sym) and a == b)
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):      # both were computed in floats
            return self.claim(label, abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))))
        ea, eb = core.lift(a), core.lift(b)
        if ea is None or eb is None:       # infinities and foreign objects
            return self.claim(label, (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b))
        m = z3.Q(1, 1000)
        self.ex.claim(label, SymBool(ea == eb), SymBool(z3.Or(ea - eb > m, eb - ea > m)))


class ConcreteCtx(Ctx):
    def __init__(self, values):
        self.values = values
        self.violations = []      # (label, detail)
        self.reached = {}
        self.near = False
        self.missing = []

    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else (hi if hi is not None else 0.)))

    def flag(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return list(options)[int(self._get(name, 0))]

    def integer(self, name, lo, hi):
        return int(self._get(name, lo))

    def maybe_nan(self, name, lo=None, hi=None):
        if self.flag(name + '?nan'):
            return np.nan
        return self.real(name, lo, hi)

    def require(self, cond):
        if not bool(cond):
            raise StopPath('precondition')

    def claim(self, label, cond, strong=None, detail=None):
        self.reach(label)
        if not bool(cond):
            self.violations.append((label, detail or ''))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def _near(self, a, b):
        try:
            if abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)):
                self.near = True
        except (TypeError, ValueError):
            pass

    def _close(self, label, a, b, tol, scale):
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return self.claim(label, a is b or a == b, detail='%r instead of %r' % (a, b))
        if math.isinf(fa) or math.isinf(fb):
            ok = fa == fb
        else:
            ok = abs(fa - fb) <= tol * (1 + max(abs(fa), abs(fb), scale))
        self.claim(label, ok, detail='%r instead of %r' % (fa, fb))


# -- registry ------------------------------------------------------------------------------------------------------
class Harness:
    def __init__(self, prop, name, fn, quick, thorough, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts
        self.quick = [dict(c) for c in quick]
        self.thorough = [dict(c) for c in (thorough if thorough is not None else quick)]


HARNESSES = {}


def harness(prop, quick=({},), thorough=None, **opts):
    """Register a harness.  quick/thorough: lists of configurations (bounds); opts: explorer options, 'expect' labels."""
    def deco(fn):
        h = Harness(prop, fn.__name__, fn, quick, thorough, opts)
        HARNESSES.setdefault(prop, []).append(h)
        return fn
    return deco
