"""Library models for symbolic execution.  They are installed only in the process that executes symbolically; the
replay process runs the real libraries.  Every wrapper falls through to the real function when no symbolic value is
involved.  numpy and pandas themselves run for real on object arrays; replaced are only the leaves that need C floats:
linear algebra (exact formulas or contracts), NaN predicates, float casts and sympy's exact matrices."""
import functools
import importlib
import math
import numbers
import pkgutil
import sys
import types
from fractions import Fraction

import h5py
import numpy as np
import pandas as pd
import scipy.linalg
import sympy
import z3

from symx import core, h5stub
from symx.core import Sym, SymBool, decide, lift, NAN

ORIG = {}
REPL = {}      # id(original) -> wrapper
MODELS_USED = {}


def used(name):
    MODELS_USED[name] = MODELS_USED.get(name, 0) + 1


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.values)
    if isinstance(x, pd.DataFrame):
        return any(isinstance(v, (Sym, SymBool)) for v in x.to_numpy().ravel())
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, SymMatrix):
        return True
    return False


def _isnan(v):
    return False if isinstance(v, (Sym, SymBool)) else (v is None or bool(v != v))


class SArr(np.ndarray):
    """Object array that accepts a cast to float."""

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, np.double, 'float', 'float64', 'f8', 'd') and has_sym(np.asarray(self)):
            return self.copy()
        if self.dtype == object and self.shape and not has_sym(np.asarray(self)):
            return np.ndarray.astype(self, dtype, *a, **k).view(np.ndarray)
        return np.ndarray.astype(self, dtype, *a, **k)


def sarr(x):
    a = _obj(x)
    return a.view(SArr)


def _obj(x):
    if isinstance(x, SymMatrix):
        return x.__array__()
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.to_numpy().astype(object)
    return ORIG['np.array'](x, dtype=object)


def _wrap(mod, name, fn, key=None):
    key = key or '%s.%s' % (mod.__name__.replace('numpy', 'np'), name)
    orig = getattr(mod, name)
    ORIG[key] = orig
    functools.update_wrapper(fn, orig, assigned=('__name__', '__doc__'), updated=())
    setattr(mod, name, fn)
    REPL[id(orig)] = (orig, fn)
    return orig


# -- linear algebra ------------------------------------------------------------------------------------------------
def s_sqrt(x):
    if isinstance(x, Sym):
        return x.sqrt()
    return np.sqrt(float(x))


def _vec_norm(v, ord=None):
    v = list(v)
    if any(_isnan(x) for x in v):
        return NAN
    if len(v) == 1:
        return abs(v[0])
    if ord in (None, 2):
        nz = [x for x in v if isinstance(x, (Sym, SymBool)) or x != 0]
        if not nz:
            return np.float64(0)
        if len(nz) == 1:
            return abs(nz[0])
        return s_sqrt(sum((x * x for x in nz[1:]), nz[0] * nz[0]))
    if ord == 1:
        return sum(abs(x) for x in v)
    if ord == np.inf:
        return functools.reduce(s_max, [abs(x) for x in v])
    raise core.Unsupported('norm of order %r' % ord)


def s_max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if _isnan(a) or _isnan(b):
            return NAN
        return Sym(z3.If(lift(a) >= lift(b), lift(a), lift(b)))
    return max(a, b)


def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        y = np.asarray(x)
        if y.dtype == object:
            y = y.astype(float)
        return ORIG['np.linalg.norm'](y, ord=ord, axis=axis, keepdims=keepdims)
    used('norm')
    a = _obj(x)
    if axis is None:
        if a.ndim > 1 and ord not in (None, 'fro'):
            raise core.Unsupported('matrix norm')
        r = _vec_norm(a.ravel(), None if a.ndim > 1 else ord)
        return ORIG['np.array']([r], dtype=object).reshape((1,) * a.ndim) if keepdims else r
    if not isinstance(axis, int):
        raise core.Unsupported('matrix norm over axes')
    moved = np.moveaxis(a, axis, -1)
    out = np.empty(moved.shape[:-1], dtype=object)
    for i in np.ndindex(*moved.shape[:-1]):
        out[i] = _vec_norm(moved[i], ord)
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SArr) if out.shape else out[()]


def mdet(m):
    n = len(m)
    if n == 0:
        return np.float64(1)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in m[1:]]
        r = r + (-1) ** j * (m[0][j] * mdet(minor))
    return r


def iszero(x):
    if isinstance(x, Sym):
        return decide(x.e == 0)
    return bool(x == 0)


def minv(m):
    n = len(m)
    d = mdet(m)
    if iszero(d):
        raise np.linalg.LinAlgError('Singular matrix')
    if n == 1:
        return [[1 / d]]
    adj = [[(-1) ** (i + j) * mdet([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) for j in range(n)]
           for i in range(n)]
    return [[adj[i][j] / d for j in range(n)] for i in range(n)]


def _rows(a):
    a = _obj(a)
    if a.ndim != 2:
        raise np.linalg.LinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    rows = [list(r) for r in a]
    for r in rows:
        for v in r:
            if _isnan(v) or (not isinstance(v, Sym) and not np.isfinite(float(v))):
                raise core.Unsupported('linear algebra on nan')
    return rows


def _square(a):
    rows = _rows(a)
    if any(len(r) != len(rows) for r in rows):
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return rows


def _floatable(x):
    y = x.to_numpy() if isinstance(x, (pd.Series, pd.DataFrame)) else np.asarray(x)
    return y.astype(float) if y.dtype == object else x


def inv(a, *args, **kw):
    if not has_sym(a):
        return ORIG['np.linalg.inv'](_floatable(a))
    used('inv')
    return sarr(minv(_square(a)))


def det(a, *args, **kw):
    if not has_sym(a):
        return ORIG['np.linalg.det'](_floatable(a))
    used('det')
    return mdet(_square(a))


def matvec(m, v):
    return [functools.reduce(lambda x, y: x + y, [a * b for a, b in zip(r, v)]) for r in m]


def matmul(a, b):
    cols = list(zip(*b))
    return [[functools.reduce(lambda x, y: x + y, [p * q for p, q in zip(r, c)]) for c in cols] for r in a]


def solve(a, b, *args, **kw):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.linalg.solve'](_floatable(a), _floatable(b))
    used('solve')
    m = _square(a)
    b = _obj(b)
    im = minv(_exact(m))
    if b.ndim == 1:
        return sarr(matvec(im, list(b)))
    return sarr(matmul(im, [list(r) for r in b]))


def _exact(m):
    """Matrices of plain numbers as fractions: no rounding next to symbolic values."""
    if any(isinstance(v, Sym) or not np.isfinite(v) for row in m for v in row):
        return m
    return [[Fraction(float(v)) for v in row] for row in m]


def mpinv(m):
    """Moore-Penrose inverse; a closed form for full rank, the four Penrose equations otherwise."""
    r, c = len(m), len(m[0])
    t = [list(x) for x in zip(*m)]
    if r == c:
        if not iszero(mdet(m)):
            return minv(m)
    elif r < c:
        g = matmul(m, t)
        if not iszero(mdet(g)):
            return matmul(t, minv(g))
    else:
        g = matmul(t, m)
        if not iszero(mdet(g)):
            return matmul(minv(g), t)
    if all(iszero(v) for row in m for v in row):
        return [[np.float64(0)] * r for _ in range(c)]
    if min(r, c) == 2:                           # rank one: the transpose over the squared Frobenius norm
        f = functools.reduce(lambda x, y: x + y, [v * v for row in m for v in row])
        return [[m[j][i] / f for j in range(r)] for i in range(c)]
    used('pinv-contract')
    return core.active().remember('pinv%dx%d' % (r, c), [x for row in m for x in row], lambda: _pinv_contract(m))


def _pinv_contract(m):
    r, c = len(m), len(m[0])
    ex = core.active()
    p = [[ex.fresh_sym('pinv') for _ in range(r)] for _ in range(c)]
    mp, pm = matmul(m, p), matmul(p, m)
    for x, y in ((matmul(mp, m), m), (matmul(pm, p), p), (mp, [list(q) for q in zip(*mp)]),
                 (pm, [list(q) for q in zip(*pm)])):
        for rx, ry in zip(x, y):
            for u, v in zip(rx, ry):
                ex.assume(lift(u) == lift(v))
    return p


def _cut_off(m, rcond):
    """Whether the smaller singular value of a matrix of rank two falls below rcond times the larger one.

    What the library returns then is left open.  The default cut-offs (machine precision) are taken as zero."""
    if not isinstance(rcond, (float, np.floating)) or not rcond > 1e-10 or min(len(m), len(m[0])) != 2:
        return False
    t = [list(x) for x in zip(*m)]
    g = matmul(m, t) if len(m) == 2 else matmul(t, m)
    d, trace, r2 = mdet(g), g[0][0] + g[1][1], Fraction(float(rcond)) ** 2
    if iszero(d):
        return False
    return bool(d * (1 + r2) ** 2 < r2 * (trace * trace))


def pinv(a, rcond=1e-15, *args, **kw):
    if not has_sym(a):
        return ORIG['np.linalg.pinv'](_floatable(a), rcond, *args, **kw)
    used('pinv')
    m = _rows(a)
    if _cut_off(m, rcond):
        return sarr([[core.active().fresh_sym('pinv') for _ in m] for _ in m[0]])
    return sarr(mpinv(m))


def lstsq(a, b, rcond=None, *args, **kw):
    if not (has_sym(a) or has_sym(b)):
        a_, b_ = _floatable(a), _floatable(b)
        return ORIG['np.linalg.lstsq'](a_, b_, rcond=rcond)
    used('lstsq')
    m = _rows(a)
    b = _obj(b)
    if b.shape[0] != len(m):
        raise np.linalg.LinAlgError('Incompatible dimensions')
    for v in b.ravel():
        if _isnan(v):
            return sarr([NAN] * len(m[0])), None, None, None
    if _cut_off(_exact(m), rcond):
        p = [[core.active().fresh_sym('lstsq') for _ in m] for _ in m[0]]
    else:
        p = mpinv(_exact(m))
    x = sarr(matvec(p, list(b))) if b.ndim == 1 else sarr(matmul(p, [list(r) for r in b]))
    return x.view(np.ndarray), np.array([]), len(m), None


def eigh(a, *args, **kw):
    if not has_sym(a):
        return ORIG['np.linalg.eigh'](_floatable(a), *args, **kw)
    used('eigh')
    m = _square(a)
    n = len(m)
    # LAPACK reads the lower triangle
    m = [[m[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
    if n == 1:
        return sarr([m[0][0]]), sarr([[np.float64(1)]])
    if all(iszero(m[i][j]) for i in range(n) for j in range(i)):
        order = list(range(n))
        for i in range(n):                       # insertion sort, forks on the comparisons
            j = i
            while j > 0 and bool(m[order[j]][order[j]] < m[order[j - 1]][order[j - 1]]):
                order[j], order[j - 1] = order[j - 1], order[j]
                j -= 1
        return (sarr([m[k][k] for k in order]),
                sarr([[np.float64(1. if order[j] == i else 0.) for j in range(n)] for i in range(n)]))
    used('eigh-contract')
    w, v = core.active().remember('eigh', [x for r in m for x in r], lambda: _eigh_contract(m))
    return sarr(w), sarr(v)


def _eigh_contract(m):
    n = len(m)
    ex = core.active()
    w = [ex.fresh_sym('eigval') for _ in range(n)]
    if n == 2:                                   # an orthogonal matrix is a rotation, up to the sign of a column
        c, s = ex.fresh_sym('eigcos'), ex.fresh_sym('eigsin')
        ex.assume(w[0].e <= w[1].e)
        ex.assume(lift(c * c + s * s) == 1)
        ex.assume(lift(m[0][0]) == lift(w[0] * c * c + w[1] * s * s))
        ex.assume(lift(m[1][1]) == lift(w[0] * s * s + w[1] * c * c))
        ex.assume(lift(m[0][1]) == lift((w[0] - w[1]) * c * s))
        ex.assume(lift(w[0] + w[1]) == lift(m[0][0] + m[1][1]))
        ex.assume(lift(w[0] * w[1]) == lift(mdet(m)))
        flip = decide(ex.fresh('eigsign') > 0)
        return w, ([[c, s if flip else -s], [s, -c if flip else c]])
    v = [[ex.fresh_sym('eigvec') for _ in range(n)] for _ in range(n)]
    for i in range(n - 1):
        ex.assume(w[i].e <= w[i + 1].e)
    vt = [list(r) for r in zip(*v)]
    vtv, av = matmul(vt, v), matmul(m, v)
    for i in range(n):
        for j in range(n):
            if j >= i:
                ex.assume(lift(vtv[i][j]) == (1 if i == j else 0))
            ex.assume(lift(av[i][j]) == lift(v[i][j] * w[j]))
    return w, (v)


def eigvalsh(a, *args, **kw):
    if not has_sym(a):
        return ORIG['np.linalg.eigvalsh'](_floatable(a), *args, **kw)
    return eigh(a)[0]


# -- predicates and elementwise ------------------------------------------------------------------------------------
def _elementwise(key, sym_value, scalar):
    def f(x, *args, **kw):
        if isinstance(x, (Sym, SymBool)):
            return sym_value
        if not has_sym(x):
            y = x
            if isinstance(x, np.ndarray) and x.dtype == object:
                y = x.astype(float)
            return ORIG[key](y, *args, **kw)
        if isinstance(x, pd.Series):
            return pd.Series([sym_value if isinstance(v, (Sym, SymBool)) else bool(scalar(v)) for v in x.values],
                             index=x.index)
        a = _obj(x)
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = sym_value if isinstance(a[i], (Sym, SymBool)) else bool(scalar(a[i]))
        return out
    return f


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.isclose'](_floatable(a), _floatable(b), rtol, atol, equal_nan)
    x, y = np.broadcast_arrays(_obj(a), _obj(b))
    out = np.empty(x.shape, dtype=bool)
    for i in np.ndindex(*x.shape):
        if _isnan(x[i]) or _isnan(y[i]):
            out[i] = equal_nan and _isnan(x[i]) and _isnan(y[i])
        else:
            out[i] = bool(abs(x[i] - y[i]) <= atol + rtol * abs(y[i]))
    return out if out.shape else bool(out)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return ORIG['np.allclose'](_floatable(a), _floatable(b), rtol, atol, equal_nan)
    return bool(np.all(isclose(a, b, rtol, atol, equal_nan)))


def _math1(key, symfn):
    def f(x):
        if isinstance(x, SymBool):
            x = Sym(lift(x))
        return symfn(x) if isinstance(x, Sym) else ORIG[key](x)
    return f


def _math2(key, symfn):
    def f(x, y):
        return symfn(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else ORIG[key](x, y)
    return f


def _copysign(x, y):
    negative = bool(y < 0) if isinstance(y, Sym) else ORIG['math.copysign'](1, y) < 0
    return -abs(x) if negative else abs(x)


def math_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return ORIG['math.isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if _isnan(a) or _isnan(b):
        return False
    return bool(abs(a - b) <= s_max(rel_tol * s_max(abs(a), abs(b)), abs_tol))


def _by_value(key):
    """No encoding: the function sees values the solver picks (concolic)."""
    def f(a, *args, **kw):
        return ORIG[key](_obj(a).astype(float) if has_sym(a) else a, *args, **kw)
    return f


def gradient(f, *args, **kw):
    if not has_sym(f) or np.ndim(f) != 1 or len(args) > 1 or kw or len(args) == 1 and np.ndim(args[0]):
        return ORIG['np.gradient'](f, *args, **kw)
    a, h = list(_obj(f)), args[0] if args else 1.
    return sarr([(a[1] - a[0]) / h] + [(a[i + 1] - a[i - 1]) / (2. * h) for i in range(1, len(a) - 1)] + [(a[-1] - a[-2]) / h])


def hypot(*xs):
    return _vec_norm(xs) if any(isinstance(x, Sym) for x in xs) else ORIG['math.hypot'](*xs)


# -- sympy ---------------------------------------------------------------------------------------------------------
class SymMatrix:
    """Exact matrices with the algorithm sympy uses (first non-zero pivot), forking on symbolic zero tests."""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = [list(r) for r in rows]

    @property
    def shape(self):
        return len(self.rows), (len(self.rows[0]) if self.rows else 0)

    rows_n = property(lambda self: self.shape[0])
    cols = property(lambda self: self.shape[1])

    @property
    def T(self):
        return SymMatrix([list(c) for c in zip(*self.rows)])

    def transpose(self):
        return self.T

    def __array__(self, dtype=None, copy=None):
        a = np.empty(self.shape, dtype=object)
        for i, r in enumerate(self.rows):
            for j, v in enumerate(r):
                a[i, j] = v
        return a

    def tolist(self):
        return [list(r) for r in self.rows]

    def __len__(self):
        return self.shape[0] * self.shape[1]

    def __iter__(self):
        return iter([v for r in self.rows for v in r])

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r = self.__array__()[k]
            return SymMatrix(np.atleast_2d(r)) if isinstance(r, np.ndarray) else r
        return [v for r in self.rows for v in r][k]

    def rref(self):
        m = [list(r) for r in self.rows]
        pivots, row = [], 0
        for col in range(self.shape[1]):
            p = next((i for i in range(row, len(m)) if not iszero(m[i][col])), None)
            if p is None:
                continue
            m[row], m[p] = m[p], m[row]
            pv = m[row][col]
            m[row] = [v if not isinstance(v, Sym) and v == 0 else v / pv for v in m[row]]
            for i in range(len(m)):
                if i != row:
                    f = m[i][col]
                    if isinstance(f, Sym) or f != 0:
                        m[i] = [a if not isinstance(b, Sym) and b == 0 else a - f * b for a, b in zip(m[i], m[row])]
                        m[i][col] = np.float64(0)
            m[row][col] = np.float64(1)
            pivots.append(col)
            row += 1
            if row == len(m):
                break
        return SymMatrix(m), tuple(pivots)

    def rank(self, *a, **k):
        return len(self.rref()[1])

    def nullspace(self, *a, **k):
        r, pivots = self.rref()
        n = self.shape[1]
        res = []
        for free in (c for c in range(n) if c not in pivots):
            v = [np.float64(0)] * n
            v[free] = np.float64(1)
            for i, p in enumerate(pivots):
                v[p] = -r.rows[i][free]
            res.append(SymMatrix([[x] for x in v]))
        return res

    def norm(self, ord=None):
        return _vec_norm(list(self), ord)

    def det(self):
        return mdet(self.rows)

    def inv(self, *a, **k):
        return SymMatrix(minv(self.rows))

    def _coerce(self, o):
        if isinstance(o, SymMatrix):
            return o
        if isinstance(o, (np.ndarray, pd.DataFrame)) and np.ndim(o) == 2:
            return SymMatrix(_obj(o))
        return None

    def __mul__(self, o):
        m = self._coerce(o)
        if m is not None:
            return SymMatrix(matmul(self.rows, m.rows))
        return SymMatrix([[v * o for v in r] for r in self.rows])

    __matmul__ = __mul__

    def __rmul__(self, o):
        m = self._coerce(o)
        if m is not None:
            return SymMatrix(matmul(m.rows, self.rows))
        return SymMatrix([[o * v for v in r] for r in self.rows])

    __rmatmul__ = __rmul__

    def dot(self, o):
        return sum(a * b for a, b in zip(list(self), list(o)))

    def __add__(self, o):
        m = self._coerce(o)
        return SymMatrix([[a + b for a, b in zip(r, s)] for r, s in zip(self.rows, m.rows)])

    def __sub__(self, o):
        m = self._coerce(o)
        return SymMatrix([[a - b for a, b in zip(r, s)] for r, s in zip(self.rows, m.rows)])

    def __neg__(self):
        return SymMatrix([[-v for v in r] for r in self.rows])

    def __truediv__(self, o):
        return SymMatrix([[v / o for v in r] for r in self.rows])

    def __float__(self):
        raise TypeError('a matrix is no float')


def s_matrix(*args):
    if len(args) == 3:
        r, c, flat = args
        flat = list(flat)
        return SymMatrix([flat[i * c:(i + 1) * c] for i in range(r)])
    x = args[0]
    used('sympy.Matrix')
    if isinstance(x, SymMatrix):
        return SymMatrix(x.rows)
    if isinstance(x, (pd.Series, pd.Index)) or (isinstance(x, np.ndarray) and x.ndim == 1):
        return SymMatrix([[v] for v in _obj(x)])
    if isinstance(x, (pd.DataFrame, np.ndarray)):
        return SymMatrix([list(r) for r in _obj(x)])
    x = list(x)
    if not x:
        return SymMatrix([])
    if isinstance(x[0], (list, tuple, pd.Series, np.ndarray, SymMatrix)):
        return SymMatrix([list(_obj(r).ravel()) if not isinstance(r, (list, tuple)) else list(r) for r in x])
    return SymMatrix([[v] for v in x])


def s_gram_schmidt(vlist, orthonormal=False):
    """Exact, like sympy's."""
    vlist = list(vlist)
    if not all(isinstance(v, SymMatrix) for v in vlist):
        return ORIG['sympy.GramSchmidt'](vlist, orthonormal)
    used('sympy.GramSchmidt')
    out = []
    for v in vlist:
        w = SymMatrix(v.rows)
        for u in out:
            f = v.dot(u) / u.dot(u)
            if isinstance(f, Sym) or f != 0:
                w = w - u * f
        out.append(w)
    return [w / w.norm() for w in out] if orthonormal else out


def _orthogonalize(*vecs, normalize=False, rankcheck=False):
    return s_gram_schmidt(vecs, normalize)


def _hstack(*ms):
    return SymMatrix([sum((list(m.rows[i]) for m in ms), []) for i in range(ms[0].shape[0])])


def _vstack(*ms):
    return SymMatrix([list(r) for m in ms for r in m.rows])


s_matrix.orthogonalize, s_matrix.hstack, s_matrix.vstack = _orthogonalize, _hstack, _vstack
s_matrix.zeros = lambda r, c=None: SymMatrix([[np.float64(0)] * (r if c is None else c) for _ in range(r)])
s_matrix.eye = lambda n: SymMatrix([[np.float64(i == j) for j in range(n)] for i in range(n)])


# -- polynomial fits of symbolic data over concrete abscissas ------------------------------------------------------------
def _linear(e):
    """A term as {key: (atom, Fraction)}; the atoms are its monomials, None stands for 1."""
    e = z3.simplify(e, som=True)
    out = {}
    for t in (e.children() if z3.is_add(e) else [e]):
        if core._isnum(t):
            key, atom, c = None, None, core._frac(t)
        elif z3.is_mul(t) and core._isnum(t.arg(0)):
            c, rest = core._frac(t.arg(0)), t.children()[1:]
            atom = rest[0] if len(rest) == 1 else z3.Product(*rest)
            key = atom.sexpr()
        else:
            key, atom, c = t.sexpr(), t, Fraction(1)
        old = out.get(key)
        out[key] = (atom, c + (old[1] if old else 0))
    return out


class Poly:
    """A polynomial whose coefficients are linear forms with exact rational factors; calling it evaluates it."""

    def __init__(self, forms):          # {key: (atom, [Fraction, lowest power first])}
        self.forms = forms

    def __call__(self, x):
        if has_sym(x):
            raise core.Unsupported('a fitted polynomial at a symbolic position')
        if np.ndim(x):
            return sarr([self(v) for v in np.asarray(x).ravel()])
        fx = Fraction(float(x))
        terms = []
        for atom, c in self.forms.values():
            v = Fraction(0)
            for a in reversed(c):
                v = v * fx + a
            if v:
                q = z3.Q(v.numerator, v.denominator)
                terms.append(q if atom is None else q * atom)
        return Sym(z3.Sum(terms)) if terms else np.float64(0)

    def deriv(self, m=1):
        p = self
        for _ in range(m):
            p = Poly({k: (a, [c * i for i, c in enumerate(cs)][1:] or [Fraction(0)]) for k, (a, cs) in p.forms.items()})
        return p


class Coefficients(SArr):
    """The coefficients of a fitted polynomial; remembers the polynomial."""
    poly, reverse = None, False

    def __array_finalize__(self, obj):
        self.poly, self.reverse = getattr(obj, 'poly', None), getattr(obj, 'reverse', False)

    def __getitem__(self, k):
        r = super().__getitem__(k)
        if isinstance(r, Coefficients):
            if isinstance(k, slice) and k == slice(None, None, -1):
                r.reverse = not self.reverse
            elif len(r) != len(self):
                r = r.view(SArr)
        return r


_BASES = {}


def _orthogonal(x, deg):
    """Orthogonal polynomials on the points x: (values, monomial coefficients, squared norms), exactly."""
    key = (tuple(x), deg)
    if key not in _BASES:
        vals, coef, nrm = [[Fraction(1)] * len(x)], [[Fraction(1)]], [Fraction(len(x))]
        for k in range(1, deg + 1):
            p = vals[-1]
            a = sum((xi * v * v for xi, v in zip(x, p)), Fraction(0)) / nrm[-1]
            q = [(xi - a) * v for xi, v in zip(x, p)]
            c = [Fraction(0)] + coef[-1]
            c = [u - a * w for u, w in zip(c, coef[-1] + [Fraction(0)])]
            if k > 1:
                b = nrm[-1] / nrm[-2]
                q = [u - b * w for u, w in zip(q, vals[-2])]
                c = [u - b * w for u, w in zip(c, coef[-2] + [Fraction(0)] * 2)]
            n = sum((v * v for v in q), Fraction(0))
            if n == 0:
                raise core.Unsupported('a polynomial fit with fewer points than coefficients')
            vals.append(q)
            coef.append(c)
            nrm.append(n)
        _BASES[key] = vals, coef, nrm
    return _BASES[key]


def _fit(x, y, deg):
    """The exact least squares polynomial; deg an integer."""
    used('polyfit')
    y = list(_obj(y))
    if any(_isnan(v) for v in y):
        raise np.linalg.LinAlgError('SVD did not converge in Linear Least Squares')
    xs = [Fraction(float(v)) for v in np.asarray(x, dtype=float)]
    vals, coef, nrm = _orthogonal(xs, int(deg))
    columns = {}
    for i, v in enumerate(y):
        for key, (atom, c) in _linear(lift(v)).items():
            columns.setdefault(key, (atom, [Fraction(0)] * len(y)))[1][i] = c
    forms = {}
    for key, (atom, col) in columns.items():
        cs = [Fraction(0)] * (int(deg) + 1)
        for p, c, n in zip(vals, coef, nrm):
            w = sum((u * v for u, v in zip(p, col)), Fraction(0)) / n
            if w:
                for j, u in enumerate(c):
                    cs[j] += w * u
        forms[key] = (atom, cs)
    poly = Poly(forms)
    out = np.empty(int(deg) + 1, dtype=object)
    for j in range(int(deg) + 1):
        terms = [z3.Q(c[j].numerator, c[j].denominator) if a is None else z3.Q(c[j].numerator, c[j].denominator) * a
                 for a, c in forms.values() if c[j]]
        out[j] = Sym(z3.Sum(terms)) if terms else np.float64(0)
    out = out.view(Coefficients)
    out.poly = poly
    return out


def _polyfits():
    def low_first(x, y, deg, *args, **kw):
        if not has_sym(y) and not has_sym(x):
            return ORIG['np.polynomial.polynomial.polyfit'](_floatable(x), _floatable(y), deg, *args, **kw)
        if has_sym(x) or args or any(v is not None and v is not False for v in kw.values()):
            raise core.Unsupported('this polynomial fit')
        if np.ndim(y) == 2:
            raise core.Unsupported('several polynomial fits at once')
        return _fit(x, y, deg)

    def high_first(x, y, deg, *args, **kw):
        if not has_sym(y) and not has_sym(x):
            return ORIG['np.polyfit'](_floatable(x), _floatable(y), deg, *args, **kw)
        return low_first(x, y, deg, *args, **kw)[::-1]

    class poly1d(np.poly1d):
        def __new__(cls, c_or_r, *args, **kw):
            if isinstance(c_or_r, Coefficients) and c_or_r.reverse:
                return c_or_r.poly
            if has_sym(c_or_r):
                c = list(_obj(c_or_r))
                return lambda x: functools.reduce(lambda acc, a: acc * x + a, c)
            return super().__new__(cls)

    def polyval_high(p, x):
        if isinstance(p, Coefficients) and p.reverse and not has_sym(x):
            return p.poly(x)
        return ORIG['np.polyval'](p, x)

    def polyval_low(x, c, *args, **kw):
        if isinstance(c, Coefficients) and not c.reverse and not has_sym(x):
            return c.poly(x)
        return ORIG['np.polynomial.polynomial.polyval'](x, c, *args, **kw)
    _wrap(np.polynomial.polynomial, 'polyfit', low_first)
    _wrap(np.polynomial.polynomial, 'polyval', polyval_low)
    _wrap(np, 'polyfit', high_first)
    _wrap(np, 'polyval', polyval_high)
    ORIG['np.poly1d'] = np.poly1d
    REPL[id(np.poly1d)] = (np.poly1d, poly1d)
    np.poly1d = poly1d


# -- numpy as seen by the code under test --------------------------------------------------------------------------
_FLOATS = (float, np.float64, np.double, 'float', 'float64', 'f8', 'd', np.dtype(float))


def _is_float_dtype(d):
    try:
        return d is not None and np.dtype(d) == np.dtype(float)
    except TypeError:
        return False


def _filled(shape, value):
    a = np.empty(shape, dtype=object)
    a.fill(np.float64(value))
    return a.view(SArr)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __getattr__(cls, name):
        return getattr(np.ndarray, name)


class NdProxy(metaclass=_NdMeta):
    def __new__(cls, shape=None, dtype=None, *a, **k):
        if (dtype is None or _is_float_dtype(dtype)) and not a and not k:
            return _filled(shape, 0.)
        return np.ndarray(shape, dtype if dtype is not None else float, *a, **k)


class NpProxy(types.ModuleType):
    """numpy with object arrays wherever the code allocates float storage that symbolic values will be written to."""

    def __init__(self):
        super().__init__('numpy')
        self.ndarray = NdProxy

    def __getattr__(self, name):
        return getattr(np, name)

    def _alloc(self, name, value, shape, dtype, k):
        if (dtype is None or _is_float_dtype(dtype)) and not k:
            return _filled(shape, value)
        return getattr(np, name)(shape, dtype=dtype, **k)

    def zeros(self, shape, dtype=None, **k):
        return self._alloc('zeros', 0., shape, dtype, k)

    def ones(self, shape, dtype=None, **k):
        return self._alloc('ones', 1., shape, dtype, k)

    def empty(self, shape, dtype=None, **k):
        return self._alloc('empty', 0., shape, dtype, k)

    def full(self, shape, fill_value, dtype=None, **k):
        if isinstance(fill_value, (Sym, SymBool)) or dtype is None or _is_float_dtype(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(fill_value)
            return a.view(SArr)
        return np.full(shape, fill_value, dtype, **k)

    def _like(self, name, value, a, dtype, k):
        src = np.asarray(a)
        if (dtype is None and src.dtype.kind in 'fO') or _is_float_dtype(dtype):
            return _filled(src.shape, value)
        return getattr(np, name)(a, dtype=dtype, **k)

    def zeros_like(self, a, dtype=None, **k):
        return self._like('zeros_like', 0., a, dtype, k)

    def ones_like(self, a, dtype=None, **k):
        return self._like('ones_like', 1., a, dtype, k)

    def empty_like(self, a, dtype=None, **k):
        return self._like('empty_like', 0., a, dtype, k)

    def full_like(self, a, fill_value, dtype=None, **k):
        return self.full(np.asarray(a).shape, fill_value, dtype)

    def _arr(self, fn, x, dtype, a, k):
        if isinstance(x, SymMatrix) or (isinstance(x, (list, tuple)) and any(isinstance(v, SymMatrix) for v in x)):
            if isinstance(x, SymMatrix):
                return x.__array__().view(SArr)
            return ORIG['np.array']([v.__array__() for v in x], dtype=object).view(SArr)
        if has_sym(x):
            if dtype is None or _is_float_dtype(dtype):
                k.pop('copy', None)
                if dtype is None and isinstance(x, np.ndarray) and fn is np.asarray:
                    return x
                return ORIG['np.array'](x, dtype=object).view(SArr)
        return fn(x, dtype, *a, **k) if dtype is not None else fn(x, *a, **k)

    def array(self, x, dtype=None, *a, **k):
        return self._arr(ORIG['np.array'], x, dtype, a, k)

    def asarray(self, x, dtype=None, *a, **k):
        return self._arr(np.asarray, x, dtype, a, k)

    def asanyarray(self, x, dtype=None, *a, **k):
        return self._arr(np.asanyarray, x, dtype, a, k)

    def linspace(self, start, stop, num=50, endpoint=True, **k):
        if not (has_sym(start) or has_sym(stop)):
            return np.linspace(start, stop, num, endpoint=endpoint, **k)
        div = (num - 1) if endpoint else num
        return sarr([start + (stop - start) * np.float64(i) / div if i else start for i in range(num)])

    def float64(self, x=0.):
        return x if isinstance(x, Sym) else np.float64(x)


def _keeps_symbols(name):
    def f(self, x, *a, **k):
        if isinstance(x, SymMatrix):
            x = x.__array__()
        elif isinstance(x, (list, tuple)):
            x = [v.__array__() if isinstance(v, SymMatrix) else v for v in x]
        r = getattr(np, name)(x, *a, **k)
        return r.view(SArr) if isinstance(r, np.ndarray) and r.dtype == object and has_sym(r) else r
    f.__name__ = name
    return f


for _name in ('hstack', 'vstack', 'stack', 'concatenate', 'column_stack', 'squeeze', 'atleast_1d', 'atleast_2d', 'transpose', 'reshape', 'ravel'):
    setattr(NpProxy, _name, _keeps_symbols(_name))
NP = NpProxy()


def _pandas():
    from pandas.core import nanops, generic, construction, base
    import pandas.core.dtypes.cast as cast

    def ensure_numeric(x):
        if isinstance(x, (Sym, SymBool)) or has_sym(x):
            return x
        return ORIG['pd.ensure_numeric'](x)
    ORIG['pd.ensure_numeric'] = nanops._ensure_numeric
    nanops._ensure_numeric = ensure_numeric

    orig_astype = generic.NDFrame.astype

    def astype(self, dtype, *a, **k):
        if not isinstance(dtype, dict) and _is_float_dtype(dtype) and has_sym(self):
            return self.copy()
        return orig_astype(self, dtype, *a, **k)
    generic.NDFrame.astype = astype

    orig_to_numpy = base.IndexOpsMixin.to_numpy

    def to_numpy(self, dtype=None, *a, **k):
        if _is_float_dtype(dtype) and has_sym(self):
            return orig_to_numpy(self, object, *a, **k).view(SArr)
        return orig_to_numpy(self, dtype, *a, **k)
    base.IndexOpsMixin.to_numpy = to_numpy
    pd.Series.to_numpy = to_numpy

    orig_try_cast = construction._try_cast

    def try_cast(arr, dtype, *a, **k):
        if has_sym(arr) and _is_float_dtype(dtype):
            dtype = np.dtype(object)
        return orig_try_cast(arr, dtype, *a, **k)
    construction._try_cast = try_cast

    for mod in (construction, cast):
        if hasattr(mod, 'construct_1d_arraylike_from_scalar'):
            orig_scalar = mod.construct_1d_arraylike_from_scalar

            def from_scalar(value, length, dtype, _orig=orig_scalar):
                if isinstance(value, (Sym, SymBool)):
                    a = np.empty(length, dtype=object)
                    a.fill(value)
                    return a
                return _orig(value, length, dtype)
            mod.construct_1d_arraylike_from_scalar = from_scalar

    frame_init, series_equals = pd.DataFrame.__init__, pd.Series.equals

    def init(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if dtype is not None and dtype != object:
            vals = data.values() if isinstance(data, dict) else [data]
            if any(isinstance(v, (Sym, SymBool)) or not isinstance(v, (str, bytes)) and np.ndim(v) and has_sym(v) for v in vals if v is not None):
                dtype = object
        frame_init(self, data, index, columns, dtype, copy)
    init.__wrapped__ = frame_init
    pd.DataFrame.__init__ = init

    def equals(self, other):
        # a symbolic series is held as objects: the dtypes of floats must not tell them apart
        if isinstance(other, pd.Series) and (self.dtype == object) != (other.dtype == object) and {self.dtype.kind, other.dtype.kind} == {'O', 'f'}:
            if has_sym(self) or has_sym(other) or all(isinstance(v, (float, Sym)) for v in list(self.values) + list(other.values)):
                return series_equals(self.astype(object), other.astype(object))
        return series_equals(self, other)
    pd.Series.equals = equals
    series_apply = pd.Series.apply

    def apply(self, func, *args, **kw):
        if isinstance(func, np.ufunc) and not args and not kw and self.dtype == object:
            return pd.Series([getattr(v, func.__name__)() if isinstance(v, (Sym, SymBool)) else func(v) for v in self.values], index=self.index, name=self.name)
        return series_apply(self, func, *args, **kw)
    pd.Series.apply = apply

    def moment(name, fn):
        orig = getattr(pd.Series, name)

        def f(self, axis=None, skipna=True, level=None, ddof=1, *a, **k):
            if not has_sym(self):
                return orig(self, axis, skipna, level, ddof, *a, **k)
            vals = [v for v in self.values if not _isnan(v)]
            if len(vals) <= ddof or len(vals) < len(self) and not skipna:
                return np.nan
            mean = sum(vals) / float(len(vals))
            return fn(sum((v - mean) * (v - mean) for v in vals) / float(len(vals) - ddof), float(len(vals)))
        setattr(pd.Series, name, f)
    moment('var', lambda v, n: v)
    moment('std', lambda v, n: s_sqrt(v))
    moment('sem', lambda v, n: s_sqrt(v / n))

    def arg(name, better, label):
        orig = getattr(pd.Series, name)

        def f(self, axis=0, skipna=True, *a, **k):
            if not has_sym(self):
                return orig(self, axis, skipna, *a, **k)
            best = None
            for i, v in enumerate(self.values):
                if _isnan(v):
                    continue
                if best is None or bool(better(v, self.values[best])):
                    best = i
            return self.index[best] if label else best
        setattr(pd.Series, name, f)
    for name, label in (('idxmax', True), ('argmax', False)):
        arg(name, lambda a, b: a > b, label)
    for name, label in (('idxmin', True), ('argmin', False)):
        arg(name, lambda a, b: a < b, label)


_installed = False


def nanmean(a, axis=None, *args, **kw):
    """numpy divides zero by zero where no value is valid: for object arrays that raises instead of giving NaN."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.ndim == 2 and axis in (0, 1, -1, -2) and not args and not kw:
        rows = a.T if axis in (0, -2) else a
        out = [[v for v in row if not _isnan(v)] for row in rows]
        return np.array([sum(v[1:], v[0]) / len(v) if v else NAN for v in out], dtype=object)
    return ORIG['np.nanmean'](a, axis, *args, **kw)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    ORIG['np.array'] = np.array
    for name, fn in (('norm', norm), ('inv', inv), ('det', det), ('solve', solve), ('pinv', pinv), ('lstsq', lstsq),
                     ('eigh', eigh), ('eigvalsh', eigvalsh)):
        _wrap(np.linalg, name, fn)
    for name in ('norm', 'inv', 'det', 'solve', 'pinv', 'eigh', 'eigvalsh', 'lstsq'):
        orig = getattr(scipy.linalg, name)
        mine = getattr(np.linalg, name)

        def sp_f(a, *args, _orig=orig, _mine=mine, **kw):
            if has_sym(a) or any(has_sym(x) for x in args):
                return _mine(a, *args)
            return _orig(a, *args, **kw)
        setattr(scipy.linalg, name, sp_f)
        REPL[id(orig)] = (orig, sp_f)
    _wrap(np, 'isnan', _elementwise('np.isnan', False, lambda v: v != v))
    _wrap(np, 'isfinite', _elementwise('np.isfinite', True, lambda v: math.isfinite(v)))
    _wrap(np, 'isinf', _elementwise('np.isinf', False, lambda v: ORIG['math.isinf'](v)))
    _wrap(np, 'isclose', isclose)
    _wrap(np, 'allclose', allclose)
    for name, f in (('isnan', lambda x: False), ('isinf', lambda x: False), ('isfinite', lambda x: True),
                    ('sqrt', lambda x: x.sqrt()), ('fabs', abs)):
        _wrap(math, name, _math1('math.' + name, f))
    _wrap(math, 'hypot', hypot)
    _wrap(math, 'isclose', math_isclose)
    for name, f in (('pow', lambda x, y: x ** y), ('copysign', _copysign)):
        _wrap(math, name, _math2('math.' + name, f))
    for name in ('exp', 'log', 'tanh', 'sin', 'cos', 'sinh', 'cosh'):
        _wrap(math, name, _math1('math.' + name, lambda x, n=name: getattr(x, n)()))
    for name in ('matrix_rank', 'cond', 'svd', 'eig', 'eigvals', 'qr'):
        _wrap(np.linalg, name, _by_value('np.linalg.' + name))
    _wrap(np, 'cov', _by_value('np.cov'))
    _wrap(np, 'gradient', gradient)
    _wrap(np, 'nanmean', nanmean)
    _wrap(sympy, 'Matrix', s_matrix)
    _wrap(sympy, 'GramSchmidt', s_gram_schmidt)
    for alias in ('ImmutableMatrix',):
        setattr(sympy, alias, s_matrix)
    for name in ('File', 'Group', 'Dataset', 'Reference', 'HLObject'):
        REPL[id(getattr(h5py, name))] = (getattr(h5py, name), getattr(h5stub, name))
    _polyfits()
    _pandas()
    import filterpy.kalman.kalman_filter as kf
    # the Kalman filter keeps an optional log-likelihood and Mahalanobis distance; both are lazy
    inject('filterpy.kalman.kalman_filter', allocate=False)
    # filterpy is_scalar checks: numpy.isscalar(Sym) holds because Sym is a registered numbers.Number


def inject(modname, allocate=True):
    mod = sys.modules[modname]
    for k, v in list(vars(mod).items()):
        if v is h5py:
            setattr(mod, k, h5stub)
        elif v is np:
            if allocate:
                setattr(mod, k, NP)
        elif id(v) in REPL and REPL[id(v)][0] is v:
            setattr(mod, k, REPL[id(v)][1])
        elif allocate and callable(v) and getattr(v, '__module__', None) == 'numpy' and hasattr(NpProxy, getattr(v, '__name__', '')):
            setattr(mod, k, getattr(NP, v.__name__))


def s_isinstance(x, types_):
    """Symbolic reals are floats for the code under test, symbolic truth values are bools."""
    if isinstance(x, types_):
        return True
    if isinstance(x, (Sym, SymBool)):
        like = (float, numbers.Real, np.floating, np.generic) if isinstance(x, Sym) else (bool, np.bool_)
        return any(t in like for t in (types_ if isinstance(types_, tuple) else (types_,)))
    return False


def inject_qtune():
    import qtune
    for m in ('autotuner', 'evaluator', 'experiment', 'gradient', 'kalman_gradient', 'parameter_tuner', 'solver',
              'storage', 'util', 'history', 'basic_dqd', 'sm', 'kalman_heuristics'):
        try:
            importlib.import_module('qtune.' + m)
        except Exception:
            pass
    for name in list(sys.modules):
        if name == 'qtune' or (name.startswith('qtune.') and sys.modules[name] is not None):
            inject(name)
            sys.modules[name].isinstance = s_isinstance
