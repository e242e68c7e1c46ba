"""Finite differences: gradient, covariance and measurement plan."""
import numpy as np
import pandas as pd

from harness.common import dot, series, snapshot, total
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.util import EvaluationError, calculate_gradient_non_orthogonal, get_orthogonal_vector, gradient_min_evaluations
from symx.ctx import harness, isnan


def _points(ctx, n, symmetric, shape):
    """Measurement positions around a base; shape 'full': arbitrary, 'axis': arbitrary steps along the axes."""
    base = [ctx.real('x%d' % j) for j in range(n)]
    steps = []
    for i in range(n):
        if shape == 'full':
            steps.append([ctx.real('d%d_%d' % (i, j)) for j in range(n)])
        elif shape == 'triangular':
            steps.append([ctx.real('d%d_%d' % (i, j)) if j <= i else 0. for j in range(n)])
        else:
            steps.append([ctx.real('d%d' % i) if j == i else 0. for j in range(n)])
    if symmetric:
        pts = []
        for i, s in enumerate(steps):
            lo = [ctx.real('lo%d_%d' % (i, j)) for j in range(n)]
            pts.append([a for a in lo])
            pts.append([a + b for a, b in zip(lo, s)])
        return pts, steps
    return [base] + [[a + b for a, b in zip(base, s)] for s in steps], steps


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return total([(-1) ** j * m[0][j] * _det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n)])


@harness('C10', quick=[dict(n=1, symmetric=False), dict(n=2, symmetric=False), dict(n=2, symmetric=True),
                       dict(n=3, symmetric=False, shape='axis'), dict(n=3, symmetric=True, shape='axis'),
                       dict(n=3, symmetric=False, shape='triangular')],
         thorough=[dict(n=1, symmetric=False), dict(n=2, symmetric=False), dict(n=2, symmetric=True),
                   dict(n=3, symmetric=False, shape='axis'), dict(n=3, symmetric=True, shape='axis'),
                   dict(n=3, symmetric=False, shape='triangular'), dict(n=3, symmetric=True, shape='triangular'),
                   dict(n=3, symmetric=False), dict(n=3, symmetric=True), dict(n=4, symmetric=False, shape='axis')],
         expect=['the gradient of an affine function is exact', 'the errors are propagated'])
def affine_gradient(ctx, n, symmetric, shape='full'):
    pts, steps = _points(ctx, n, symmetric, shape)
    c = ctx.real('offset')
    g = [ctx.real('g%d' % j) for j in range(n)]
    values = [c + dot(g, p) for p in pts]
    var = [ctx.real('var%d' % i, lo=0) for i in range(len(pts))]
    d = _det(steps)
    if bool(d == 0.):
        for fn in (lambda: calculate_gradient_non_orthogonal([np.array(p) for p in pts], values),
                   lambda: calculate_gradient_non_orthogonal([np.array(p) for p in pts], values, var),
                   lambda: gradient_min_evaluations([np.array([v]) for v in values], [np.array(p) for p in pts])):
            ctx.raises('points that do not determine the gradient are an evaluation error', EvaluationError, fn)
        return
    ctx.require(ctx.Or(d > 0.01, d < -0.01))
    which = ctx.choice('function', ['gradient', 'gradient with errors', 'gradient_min_evaluations'])
    if which == 'gradient':
        got = calculate_gradient_non_orthogonal([np.array(p) for p in pts], values)
        ctx.close_seq('the gradient of an affine function is exact', np.asarray(got).ravel(), g, tol=1e-5, scale=1e3)
    elif which == 'gradient_min_evaluations':
        got = gradient_min_evaluations([np.array([v]) for v in values], [np.array(p) for p in pts])
        ctx.close_seq('the gradient of an affine function is exact', np.asarray(got).ravel(), g, tol=1e-5, scale=1e3)
    else:
        got, cov = calculate_gradient_non_orthogonal([np.array(p) for p in pts], values, var)
        ctx.close_seq('the gradient of an affine function is exact', np.asarray(got).ravel(), g, tol=1e-5, scale=1e3)
        cov = np.asarray(cov)
        ctx.claim('the covariance is a matrix', cov.shape == (n, n))
        for i in range(n):
            for j in range(n):
                if symmetric:
                    want = var[2 * i] + var[2 * i + 1] if i == j else 0.
                else:
                    want = var[0] + var[i + 1] if i == j else var[0]
                if n > 1 or i == j:
                    got_ij = dot(steps[i], [dot(cov[k], steps[j]) for k in range(n)])
                    ctx.close('the errors are propagated', got_ij, want, tol=1e-5, scale=1e3)


@harness('C10', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)],
         expect=['a wrong number of points is refused'])
def number_of_points(ctx, n):
    for k in range(1, 2 * n + 3):
        pts = [np.array([ctx.real('x%d_%d' % (i, j)) for j in range(n)]) for i in range(k)]
        values = [ctx.real('v%d' % i) for i in range(k)]
        if k in (n + 1, 2 * n):
            continue
        ctx.raises('a wrong number of points is refused', RuntimeError, lambda: calculate_gradient_non_orthogonal(pts, values))
        ctx.raises('a wrong number of points is refused', RuntimeError,
                   lambda: calculate_gradient_non_orthogonal(pts, values, [1.] * k))
        ctx.raises('a wrong number of points is refused', RuntimeError,
                   lambda: gradient_min_evaluations([np.array([v]) for v in values], pts))


def _labels(n):
    return ['g%d' % j for j in range(n)]


@harness('C10', quick=[dict(n=1, symmetric=False), dict(n=1, symmetric=True), dict(n=2, symmetric=False), dict(n=2, symmetric=True)],
         thorough=[dict(n=1, symmetric=False), dict(n=1, symmetric=True), dict(n=2, symmetric=False), dict(n=2, symmetric=True),
                   dict(n=3, symmetric=False), dict(n=3, symmetric=True)],
         expect=['the estimate is the gradient', 'no estimate before all measurements are done'])
def estimator_gradient(ctx, n, symmetric):
    """The estimator follows its own plan on an affine function; values arrive in any label order."""
    gates = _labels(n)
    epsilon = {g: ctx.real('eps_' + g, lo=0.01) for g in gates}
    pos = {g: ctx.real('pos_' + g) for g in gates}
    grad = {g: ctx.real('grad_' + g) for g in gates}
    c = ctx.real('offset')
    known = ctx.flag('position_known')
    uniform = known and ctx.flag('uniform_epsilon')
    if uniform:
        epsilon = {g: epsilon[gates[0]] for g in gates}
    eps = epsilon[gates[0]] if uniform else series(gates[::-1] if known else gates, [epsilon[g] for g in (gates[::-1] if known else gates)])
    est = FiniteDifferencesGradientEstimator(current_position=series(gates, [pos[g] for g in gates]) if known else None,
                                             epsilon=eps, symmetric=symmetric)
    ctx.claim('no estimate without measurements', est.estimate() is None and est.covariance() is None)

    var, points = [], []

    def measure(p, k):
        order = gates[::-1] + ['foreign']
        var.append(ctx.real('var%d' % k, lo=0))
        points.append(p)
        est.update(series(order, [p.get(g, 1.) for g in order]), c + dot([grad[g] for g in gates], [p[g] for g in gates]),
                   var[-1], is_new_position=ctx.flag('new%d' % k) if k < 2 else True)
    if not known:
        ctx.raises('no request before the position is known', RuntimeError, est.require_measurement)
    measure(pos, 0)
    taken = 0
    limit = 2 * n if symmetric else n
    while est.estimate() is None and taken <= limit:
        ctx.claim('no estimate before all measurements are done', taken < limit)
        req = est.require_measurement(gates=gates if ctx.flag('explicit gates') else None)
        ctx.claim('a measurement is requested while there is no estimate', req is not None and set(req.index) == set(gates))
        taken += 1
        measure(snapshot(req), taken)
    ctx.claim('the number of measurements is minimal', taken == limit)
    ctx.close_map('the estimate is the gradient', est.estimate(), grad, tol=1e-5, scale=1e3)
    ctx.claim('no request once the gradient is known', est.require_measurement() is None)
    cov = est.covariance()
    ctx.claim('the covariance is labelled', list(cov.index) == gates and list(cov.columns) == gates)
    # the first measurement only tells the position to the symmetric estimator
    steps = [[points[i][g] - points[0][g] for g in gates] for i in range(1, len(points))]
    if symmetric:
        steps = [[points[i + 1][g] - points[i][g] for g in gates] for i in range(1, len(points), 2)]
    for i in range(n):
        for j in range(n):
            if symmetric:
                want = var[2 * i + 1] + var[2 * i + 2] if i == j else 0.
            else:
                want = var[0] + (var[i + 1] if i == j else 0.)
            got = dot(steps[i], [dot([cov.loc[g, f] for f in gates], steps[j]) for g in gates])
            ctx.close('the errors of the measurements are propagated', got, want, tol=1e-5, scale=1e3)
    before = snapshot(est.estimate())
    measure({g: pos[g] + 17. for g in gates}, 5)
    ctx.close_map('further measurements do not change the estimate', est.estimate(), before)


@harness('C10', quick=[dict(n=2, symmetric=False), dict(n=2, symmetric=True)],
         expect=['the estimate is the gradient'])
def estimator_any_points(ctx, n, symmetric):
    """Measurements at other points than requested (also of a subset of the gates) give the gradient as well."""
    gates = _labels(n)
    pos = {g: ctx.real('pos_' + g) for g in gates}
    grad = {g: ctx.real('grad_' + g) for g in gates}
    c = ctx.real('offset')
    est = FiniteDifferencesGradientEstimator(current_position=series(gates, [pos[g] for g in gates]), epsilon=.1, symmetric=symmetric)
    pts = []
    count = 2 * n if symmetric else n + 1
    for k in range(count):
        partial = k == 1 and ctx.flag('partial')
        names = ['g1'] if partial else gates[::-1]
        p = {g: pos[g] + ctx.real('d%d_%s' % (k, g)) if g in names else pos[g] for g in gates}
        if symmetric:
            for g in names:
                ctx.require(p[g] - pos[g] < -0.01 if k % 2 else p[g] - pos[g] > 0.01)
        pts.append(p)
    if symmetric:
        steps = [[pts[1][g] - pts[0][g] for g in gates], [pts[3][g] - pts[2][g] for g in gates]]
    else:
        steps = [[pts[1][g] - pts[0][g] for g in gates], [pts[2][g] - pts[0][g] for g in gates]]
    d = _det(steps)
    ctx.require(ctx.Or(d > 0.01, d < -0.01))
    for k, p in enumerate(pts):
        names = ['g1'] if k == 1 and ctx.flag('partial') else gates[::-1]
        est.update(series(names, [p[g] for g in names]), c + dot([grad[g] for g in gates], [p[g] for g in gates]), 1.)
    ctx.claim('enough measurements give an estimate', est.estimate() is not None)
    ctx.close_map('the estimate is the gradient', est.estimate(), grad, tol=1e-5, scale=1e3)


# ---- C11 ---------------------------------------------------------------------------------------------------------
@harness('C11', quick=[dict(n=1, symmetric=False), dict(n=1, symmetric=True), dict(n=2, symmetric=False), dict(n=2, symmetric=True), dict(n=3, symmetric=False), dict(n=3, symmetric=True)],
         thorough=[dict(n=k, symmetric=s) for k in (1, 2, 3, 4) for s in (False, True)],
         expect=['a request is one epsilon away from the base point', 'the steps are independent'])
def measurement_plan(ctx, n, symmetric):
    gates = _labels(n)
    epsilon = {g: ctx.real('eps_' + g, lo=0.01) for g in gates}
    pos = {g: ctx.real('pos_' + g) for g in gates}
    uniform = ctx.flag('uniform_epsilon')
    if uniform:
        epsilon = {g: epsilon[gates[0]] for g in gates}
    est = FiniteDifferencesGradientEstimator(current_position=series(gates, [pos[g] for g in gates]),
                                             epsilon=epsilon[gates[0]] if uniform else series(gates, [epsilon[g] for g in gates]), symmetric=symmetric)
    est.update(series(gates, [pos[g] for g in gates]), 1., 1., is_new_position=True)
    steps = []
    k = 0
    while est.estimate() is None and k < 2 * n + 2:
        req = est.require_measurement()
        again = est.require_measurement()
        ctx.close_map('asking again gives the same request', again, snapshot(req))
        d = [req[g] - pos[g] for g in gates]
        ctx.close('a request is one epsilon away from the base point', total([(x / epsilon[g]) ** 2 for x, g in zip(d, gates)]), 1.)
        if symmetric and k % 2:
            for a, b in zip(d, steps[-1]):
                ctx.close('symmetric requests are mirrored at the base point', a, -b)
        else:
            if uniform:
                for s in steps[::2] if symmetric else steps:
                    ctx.close('the steps are orthogonal', dot(s, d), 0.)
        steps.append(d)
        k += 1
        est.update(req, 1., 1., is_new_position=True)
    ctx.claim('the plan is complete', k == (2 * n if symmetric else n))
    used = steps[::2] if symmetric else steps
    det = _det([[x / epsilon[g] for x, g in zip(s, gates)] for s in used])
    ctx.claim('the steps are independent', ctx.Or(det > 0.5, det < -0.5))
    ctx.close_map('the base point stays', est.current_position, pos)


@harness('C11', quick=[dict(symmetric=False), dict(symmetric=True)], expect=['the next step is orthogonal to the measured ones'])
def plan_after_deviation(ctx, symmetric):
    """The first measurement happens somewhere else than requested; the next step is orthogonal to what was measured."""
    gates = _labels(2)
    eps = ctx.real('eps', lo=0.01)
    pos = {g: ctx.real('pos_' + g) for g in gates}
    est = FiniteDifferencesGradientEstimator(current_position=series(gates, [pos[g] for g in gates]), epsilon=eps, symmetric=symmetric)
    if not symmetric:
        est.update(series(gates, [pos[g] for g in gates]), 1., 1.)
    d = [ctx.real('d0'), ctx.real('d1')]
    ctx.require(ctx.And(d[0] > 0.01, d[1] > 0.01))
    est.update(series(gates, [pos[g] + x for g, x in zip(gates, d)]), 1., 1.)
    if symmetric:
        req = est.require_measurement()
        for x, g in zip(d, gates):
            ctx.close('the mirrored point of the measured one is requested', req[g] - pos[g], -x)
        est.update(req, 1., 1.)
    req = est.require_measurement()
    s = [req[g] - pos[g] for g in gates]
    ctx.close('the next step is orthogonal to the measured ones', dot(s, d), 0., scale=1e2)
    ctx.close('a request is one epsilon away from the base point', dot(s, s), eps * eps, scale=1e2)


# ---- C25 ---------------------------------------------------------------------------------------------------------
@harness('C25', quick=[dict(k=1, n=2), dict(k=1, n=3), dict(k=2, n=3), dict(k=2, n=2)],
         thorough=[dict(k=1, n=2), dict(k=1, n=3), dict(k=2, n=3), dict(k=1, n=4), dict(k=2, n=2), dict(k=2, n=4), dict(k=3, n=4)],
         expect=['the vector is orthogonal', 'the vector is normalised'])
def orthogonal_vector(ctx, k, n):
    vectors = [[ctx.real('v%d_%d' % (i, j)) for j in range(n)] for i in range(k)]
    if k >= n:
        vectors[-1] = [2. * x for x in vectors[0]]
    kind = ctx.choice('kind', ['list', 'array', 'series'])
    arg = [v if kind == 'list' else (np.array(v) if kind == 'array' else series(_labels(n), v)) for v in vectors]
    ov = get_orthogonal_vector(arg)
    ov = list(np.asarray(ov))
    ctx.claim('the vector has the dimension of its arguments', len(ov) == n)
    for v in vectors:
        size = 1. if ctx.symbolic else max(map(abs, v)) or 1.            # rounding errors are relative
        ctx.close('the vector is orthogonal', dot(ov, [x / size for x in v]), 0., tol=1e-5, scale=1e2)
    ctx.close('the vector is normalised', dot(ov, ov), 1.)
