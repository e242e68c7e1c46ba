"""KalmanGradient, KalmanGradientEstimator and SelfInitializingKalmanEstimator."""
import numpy as np
import pandas as pd

from harness.common import dot, series, snapshot, total
from qtune.gradient import KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from symx.ctx import harness, isnan


def _sym(ctx, tag, n, diagonal=False):
    """A symmetric positive semidefinite matrix."""
    m = [[0.] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            if i == j or not diagonal:
                m[i][j] = m[j][i] = ctx.real('%s%d%d' % (tag, i, j))
    for i in range(n):
        ctx.require(m[i][i] >= 0.)
        for j in range(i):
            if not diagonal:
                ctx.require(m[i][i] * m[j][j] >= m[i][j] * m[i][j])
    return m


def _mv(m, v):
    return [dot(r, v) for r in m]


# ---- C12 ---------------------------------------------------------------------------------------------------------
@harness('C12', quick=[dict(n=1), dict(n=2), dict(n=2, fading=True), dict(n=3, diagonal=True)],
         thorough=[dict(n=1), dict(n=1, fading=True), dict(n=2), dict(n=2, fading=True), dict(n=3, diagonal=True), dict(n=3)],
         expect=['the gradient is the conditional mean', 'the covariance is the conditional covariance'])
def kalman_update(ctx, n, fading=False, diagonal=False):
    """One update is exactly the Gaussian conditioning on (difference of values) = gradient . (difference of positions)."""
    p = _sym(ctx, 'P', n, diagonal)
    x = [ctx.real('x%d' % i) for i in range(n)]
    h = [ctx.real('h%d' % i) for i in range(n)]
    y = ctx.real('y')
    r0 = ctx.real('R0')
    ctx.require(r0 > 0.01)
    alpha = ctx.real('alpha') if fading else 1.
    q = [[ctx.real('Q%d' % i) if i == j else 0. for j in range(n)] for i in range(n)] if fading else None
    if fading:
        ctx.require(ctx.And(alpha >= 1., *[q[i][i] >= 0. for i in range(n)]))
    r_given = ctx.flag('R given')
    r = ctx.real('R') if r_given else r0
    ctx.require(r > 0.01)
    kal = KalmanGradient(n, 1, initial_gradient=np.array(x), initial_covariance_matrix=np.array(p),
                         measurement_covariance_matrix=np.array([[r0]]), process_noise=None if q is None else np.array(q), alpha=alpha)
    predict = ctx.flag('predict')
    kw = {} if not r_given else dict(measurement_covariance=r)
    if not predict:
        kw['predict'] = False
    once = None
    if (n == 1 or diagonal) and ctx.flag('Q given'):
        once = [[ctx.real('Qnow%d' % i, lo=0) if i == j else 0. for j in range(n)] for i in range(n)]
        kw['process_covariance'] = np.array(once)
    kal.update(h, [y], **kw)
    if predict and (fading or once):
        now = once or q
        p = [[alpha * alpha * p[i][j] + now[i][j] for j in range(n)] for i in range(n)]
    ph = _mv(p, h)
    s = dot(h, ph) + r
    grad, cov = np.asarray(kal.grad), np.asarray(kal.cov)
    ctx.claim('one row per value', grad.shape == (1, n) and cov.shape == (n, n))
    res = y - dot(h, x)
    for i in range(n):
        ctx.close('the gradient is the conditional mean', (grad[0, i] - x[i]) * s, ph[i] * res, scale=1e2)
        for j in range(n):
            ctx.close('the covariance is the conditional covariance', (p[i][j] - cov[i, j]) * s, ph[i] * ph[j], scale=1e2)
    saved = kal.to_hdf5()
    ctx.close('the measurement noise of one update is not kept', np.asarray(saved['measurement_covariance_matrix'])[0, 0], r0)
    ctx.close_mat('the process noise of one update is not kept', np.asarray(saved['process_noise']), q or [[0.] * n for _ in range(n)])


@harness('C12', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2)], expect=['a measurement never increases the uncertainty'])
def kalman_uncertainty(ctx, n):
    p = _sym(ctx, 'P', n)
    h = [ctx.real('h%d' % i) for i in range(n)]
    r = ctx.real('R')
    ctx.require(r > 0.01)
    u = [ctx.real('u%d' % i) for i in range(n)]
    kal = KalmanGradient(n, 1, initial_covariance_matrix=np.array(p))
    kal.update(h, [ctx.real('y')], measurement_covariance=r)
    cov = np.asarray(kal.cov)
    before = dot(u, _mv(p, u))
    after = dot(u, _mv([list(row) for row in cov], u))
    slack = 0. if ctx.symbolic else 1e-6 * (1 + abs(before))
    ctx.claim('a measurement never increases the uncertainty', after <= before + slack)
    ctx.claim('the uncertainty stays positive', after >= -slack)


@harness('C12', quick=[dict(rounds=2)], thorough=[dict(rounds=3)], expect=['two parameters are filtered independently'])
def kalman_two_values(ctx, rounds):
    """Two values over one gate behave like two filters."""
    x = [ctx.real('x0'), ctx.real('x1')]
    p = [ctx.real('P0', lo=0), ctx.real('P1', lo=0)]
    kal = KalmanGradient(1, 2, initial_gradient=x, initial_covariance_matrix=np.array([[p[0], 0.], [0., p[1]]]))
    for k in range(rounds):
        h = ctx.real('h%d' % k)
        y = [ctx.real('y%d_0' % k), ctx.real('y%d_1' % k)]
        kal.update([h], y)
        for i in range(2):
            s = p[i] * h * h + 1.
            x[i] = x[i] + p[i] * h * (y[i] - h * x[i]) / s
            p[i] = p[i] / s
        grad, cov = np.asarray(kal.grad), np.asarray(kal.cov)
        ctx.claim('the gradient has a row for every value', grad.shape == (2, 1))
        for i in range(2):
            ctx.close('two parameters are filtered independently', grad[i, 0], x[i], scale=1e2)
            ctx.close('two parameters are filtered independently', cov[i, i], p[i], scale=1e2)
            ctx.close('two parameters stay independent', cov[i, 1 - i], 0.)


@harness('C12', quick=[dict(n=2, diagonal=True), dict(n=2), dict(n=3, diagonal=True)], thorough=[dict(n=2, diagonal=True), dict(n=2), dict(n=3, diagonal=True)],
         expect=['the suggested direction has the largest uncertainty'])
def kalman_suggestion(ctx, n, diagonal=False):
    p = _sym(ctx, 'P', n, diagonal)
    kal = KalmanGradient(n, 1, initial_covariance_matrix=np.array(p))
    v = list(np.asarray(kal.sugg_diff_position))
    ctx.close('the suggested direction is normalised', dot(v, v), 1.)
    if n == 2:     # v is an eigenvector and its eigenvalue is at least half of the trace
        pv = _mv(p, v)
        tr = p[0][0] + p[1][1]
        ctx.close('the suggested direction is extremal', pv[0] * v[1], pv[1] * v[0], scale=1e2)
        ctx.claim('the suggested direction has the largest uncertainty', 2. * dot(v, pv) >= tr - (0. if ctx.symbolic else 1e-6 * (1 + tr)))
        return
    u = [ctx.real('u%d' % i) for i in range(n)]
    ctx.require(total([a * a for a in u]) == 1. if ctx.symbolic else abs(total([a * a for a in u]) - 1.) < 1e-6)
    slack = 0. if ctx.symbolic else 1e-5 * (1 + total([p[i][i] for i in range(n)]))
    ctx.claim('the suggested direction has the largest uncertainty', dot(u, _mv(p, u)) <= dot(v, _mv(p, v)) + slack)


@harness('C12', expect=['a step of the wrong dimension is refused'])
def kalman_shapes(ctx):
    kal = KalmanGradient(2, 1)
    ctx.close_mat('without prior the gradient is zero', kal.grad, [[0., 0.]])
    ctx.close_mat('without prior the covariance is the unit matrix', kal.cov, [[1., 0.], [0., 1.]])
    ctx.raises('a step of the wrong dimension is refused', ValueError, lambda: kal.update([ctx.real('a')] * ctx.choice('n', [1, 3]), [1.]))


# ---- C13 ---------------------------------------------------------------------------------------------------------
class Recorder(KalmanGradient):
    def __init__(self, n, grad=None, cov=None):
        super().__init__(n, 1, initial_gradient=grad, initial_covariance_matrix=cov)
        self.calls = []

    def to_hdf5(self):
        return {}

    def update(self, diff_position, diff_values, measurement_covariance=None, process_covariance=None, predict=True):
        self.calls.append((list(np.asarray(diff_position)), list(np.asarray(diff_values).ravel()), measurement_covariance))


@harness('C13', quick=[dict(n=2, rounds=3)], thorough=[dict(n=2, rounds=5), dict(n=3, rounds=3)],
         expect=['the filter learns the difference of positions', 'the first value only defines the base point'])
def estimator_history(ctx, n, rounds):
    gates = ['g%d' % i for i in range(n)]
    rec = Recorder(n)
    base = {g: ctx.real('pos_' + g) for g in gates}
    value = ctx.real('value') if ctx.flag('value known') else None
    est = KalmanGradientEstimator(rec, series(gates, [base[g] for g in gates]), maximum_covariance=1., epsilon=.1, current_value=value)
    order = gates[::-1] + ['foreign']
    for k in range(rounds):
        if k == 1 and ctx.flag('restart'):
            new = {g: ctx.real('restart_' + g) for g in order}
            est.restart(series(order, [new[g] for g in order]))
            base, value = {g: new[g] for g in gates}, None
        pos = {g: ctx.real('p%d_%s' % (k, g)) for g in order}
        v, var = ctx.real('v%d' % k), ctx.real('var%d' % k)
        far = ctx.flag('far%d' % k)
        exact = k % 2 or (not far and ctx.flag('exact%d' % k))
        if far:
            ctx.require(ctx.Or(pos['g0'] - base['g0'] > 0.01, pos['g0'] - base['g0'] < -0.01))
        else:
            for g in gates:
                ctx.require(pos[g] == base[g] if exact else ctx.And(pos[g] - base[g] < 1e-8, pos[g] - base[g] > -1e-8))
        is_new = ctx.flag('new%d' % k)
        calls = len(rec.calls)
        est.update(series(order, [pos[g] for g in order]), v, var, is_new_position=is_new)
        if value is None:
            ctx.claim('the first value only defines the base point', len(rec.calls) == calls)
            base, value = {g: pos[g] for g in gates}, v
        else:
            if not far:
                ctx.claim('without a move the filter learns nothing', len(rec.calls) == calls)
            else:
                ctx.claim('every move is learned exactly once', len(rec.calls) == calls + 1)
                dx, dv, r = rec.calls[-1]
                ctx.close_seq('the filter learns the difference of positions', dx, [pos[g] - base[g] for g in gates])
                ctx.close_seq('the filter learns the difference of values', dv, [v - value])
                ctx.close('the filter learns the variance', r, var)
            if is_new:
                base, value = {g: pos[g] for g in gates}, v
        ctx.close_map('the base point moves with new positions only', est.current_position, base)
        saved = est.to_hdf5()['current_value']
        ctx.close('the base value moves with new positions only', saved, value)


@harness('C13', expect=['the gradient is labelled by gate'])
def estimator_labels(ctx):
    gates = ['b', 'a']
    cov = _sym(ctx, 'P', 2)
    grad = [ctx.real('grad_b'), ctx.real('grad_a')]
    est = KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=grad, initial_covariance_matrix=np.array(cov)),
                                  series(gates, [0., 0.]), maximum_covariance=1., epsilon=.1, current_value=0.)
    ctx.close_map('the gradient is labelled by gate', est.estimate(), {'b': grad[0], 'a': grad[1]})
    c = est.covariance()
    for i, g in enumerate(gates):
        for j, f in enumerate(gates):
            ctx.close('the covariance is labelled by gate', c.loc[g, f], cov[i][j])
    y, r = ctx.real('y'), ctx.real('r')
    ctx.require(r > 0.01)
    h = {'a': ctx.real('ha'), 'b': ctx.real('hb')}
    ctx.require(h['a'] * h['a'] + h['b'] * h['b'] > 0.01)
    est.update(series(['a', 'b'], [h['a'], h['b']]), y, r)
    hv = [h['b'], h['a']]
    ph = _mv(cov, hv)
    s = dot(hv, ph) + r
    for i, g in enumerate(gates):
        ctx.close('a measurement updates the gradient', (est.estimate()[g] - grad[i]) * s, ph[i] * (y - dot(hv, grad)), scale=1e2)


# ---- C14 ---------------------------------------------------------------------------------------------------------
def _estimator(ctx, gates, cov, maxcov, eps, pos):
    labels = gates[::-1]
    mx = maxcov if not isinstance(maxcov, dict) else series(labels, [maxcov[g] for g in labels])
    ep = eps if not isinstance(eps, dict) else series(labels, [eps[g] for g in labels])
    return KalmanGradientEstimator(KalmanGradient(len(gates), 1, initial_covariance_matrix=np.array(cov)),
                                   series(gates, [pos[g] for g in gates]), maximum_covariance=mx, epsilon=ep, current_value=0.)


@harness('C14', quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         expect=['the most uncertain gate is measured', 'below the threshold nothing is measured'])
def request_diagonal(ctx, n):
    """Independent gates, individual thresholds (also infinite ones) and steps, requests for a subset of the gates."""
    gates = ['g%d' % i for i in range(n)]
    var = {g: ctx.real('var_' + g, lo=0) for g in gates}
    inf = {g: n > 1 and i < 2 and ctx.flag('inf_' + g) for i, g in enumerate(gates)}
    mx = {g: np.inf if inf[g] else ctx.real('max_' + g, lo=0.01) for g in gates}
    eps = {g: ctx.real('eps_' + g, lo=0.01) for g in gates}
    pos = {g: ctx.real('pos_' + g) for g in gates}
    cov = [[var[g] if g == f else 0. for f in gates] for g in gates]
    est = _estimator(ctx, gates, cov, mx, eps, pos)
    asked = gates[1:][::-1] if n > 1 and ctx.flag('subset') else gates
    req = est.require_measurement(gates=None if asked is gates and ctx.flag('all') else asked)
    ratio = {g: (0. if inf[g] else var[g] / mx[g]) for g in asked}
    above = ctx.Or(False, *[ctx.gt(ratio[g], 1.) for g in asked if not inf[g]])
    ctx.claim('a measurement is required exactly above the threshold', ctx.Iff(req is not None, above))
    if req is None:
        ctx.claim('below the threshold nothing is measured', True)
        return
    ctx.claim('the request names all gates', set(req.index) == set(gates))
    d = {g: req[g] - pos[g] for g in gates}
    for g in gates:
        if g not in asked:
            ctx.close('only the tuned gates move', d[g], 0.)
    moved = [ctx.Or(d[g] == eps[g], d[g] == -eps[g]) if ctx.symbolic else abs(abs(d[g]) - eps[g]) < 1e-6 * (1 + abs(pos[g])) for g in gates]
    best = [ctx.And(*[ctx.ge(ratio[g], ratio[f]) for f in asked]) if g in asked else False for g in gates]
    rest = [ctx.And(*[(d[f] == 0. if ctx.symbolic else abs(d[f]) < 1e-6 * (1 + abs(pos[f]))) for f in gates if f != g]) for g in gates]
    ctx.claim('the most uncertain gate is measured', ctx.Or(*[ctx.And(m, b, r) for m, b, r in zip(moved, best, rest)]))


@harness('C14', quick=[dict(free=False), dict(free=False, tuned=True)],
         thorough=[dict(free=False), dict(free=True), dict(free=False, tuned=True), dict(free=True, tuned=True)],
         expect=['the most uncertain direction is measured'])
def request_correlated(ctx, free, tuned=False):
    """Two correlated gates, one threshold: the direction of the largest variance decides.  A third gate may belong to a tuned parameter."""
    gates = ['a', 'b']
    p = _sym(ctx, 'P', 2)
    mx, eps = ctx.real('max', lo=0.01), ctx.real('eps', lo=0.01) if free else .5
    pos = {g: ctx.real('pos_' + g) if free else 0. for g in gates + ['t']}
    if tuned:
        slope = ctx.real('slope')
        ctx.require(ctx.Or(slope > 0.1, slope < -0.1))
        far = ctx.real('var_t', lo=0)
        cov = [[far, 0., 0.], [0., p[0][0], p[0][1]], [0., p[1][0], p[1][1]]]
        est = _estimator(ctx, ['t', 'a', 'b'], cov, mx, eps, pos)
        req = est.require_measurement(['t', 'b', 'a'], tuned_jacobian=pd.DataFrame([[slope, 0., 0.]], columns=['t', 'b', 'a']))
        if req is not None:
            ctx.close('the step leaves the tuned parameters unchanged', req['t'], pos['t'])
    else:
        est = _estimator(ctx, gates, p, mx, eps, pos)
        req = est.require_measurement(gates)
    # all directions are below the threshold  <=>  max*1 - P is positive semidefinite
    a, b, c = mx - p[0][0], mx - p[1][1], p[0][1]
    below = ctx.And(ctx.ge(a, 0.), ctx.ge(b, 0.), ctx.ge(a * b, c * c))
    ctx.claim('a measurement is required exactly above the threshold', ctx.Iff(req is None, below))
    if req is None:
        return
    d = [req[g] - pos[g] for g in gates]
    ctx.close('the step has the length epsilon', dot(d, d), eps * eps)
    pd_ = _mv(p, d)
    ctx.close('the most uncertain direction is measured', pd_[0] * d[1], pd_[1] * d[0])
    ctx.claim('the measured direction is above the threshold', ctx.gt(dot(d, pd_), mx * eps * eps) if ctx.symbolic else
              dot(d, pd_) > mx * eps * eps * (1 - 1e-6))


@harness('C14', quick=[dict(), dict(thresholds=True)], thorough=[dict(), dict(thresholds=True)], expect=['the step leaves the tuned parameters unchanged'])
def request_null_plane(ctx, thresholds=False):
    """A tuned parameter depends on two of three gates: a plane of directions is left."""
    own = ['g0', 'g1', 'g2']
    mx = {g: ctx.real('max', lo=0.01) for g in own}
    if thresholds:
        mx['g2'] = ctx.choice('max2', [np.inf, 2.])
    eps = ctx.real('eps', lo=0.01)
    pos = {g: ctx.real('pos_' + g) for g in own}
    var = {g: ctx.real('var_' + g, lo=0) for g in own}
    est = _estimator(ctx, own, [[var[g] if g == f else 0. for f in own] for g in own], mx, eps, pos)
    s = ctx.real('slope')
    ctx.require(ctx.Or(s > 0.1, s < -0.1))
    req = est.require_measurement(gates=own, tuned_jacobian=pd.DataFrame([[3. * s, 4. * s, 0.]], columns=own))
    flat, free = 16. * var['g0'] + 9. * var['g1'], var['g2']        # the variances along (4, -3, 0) and g2
    if mx['g2'] is np.inf:
        above = ctx.gt(flat, 25. * mx['g0'])
    else:
        above = ctx.Or(ctx.gt(flat, 25. * mx['g0']), ctx.gt(free, mx['g2']))
    ctx.claim('a measurement is required exactly above the threshold', ctx.Iff(req is not None, above))
    if req is None:
        return
    d = {g: req[g] - pos[g] for g in own}
    ctx.close('the step leaves the tuned parameters unchanged', 3. * d['g0'] + 4. * d['g1'], 0., scale=1e2)
    ctx.close('the step has the length epsilon', total([x * x for x in d.values()]), eps * eps, scale=1e2)
    if not thresholds:
        c = total([d[g] * d[g] * var[g] for g in own])
        for v in (flat / 25., free):
            ctx.claim('the most uncertain direction is measured', c >= v * eps * eps * (1 if ctx.symbolic else 1 - 1e-6))


DIRECTIONS = {(2, 1): [((3., 4.),), ((0., 1.),), ((1., 0.),), ((1., -1.),), ((2., 1.),)],
              (3, 2): [((1., 0., 0.), (0., 1., 1.)), ((1., 2., 0.), (0., 1., 3.)), ((1., 1., 1.), (1., -1., 0.)), ((0., 0., 1.), (1., 0., 2.))]}


@harness('C14', quick=[dict(n=2), dict(n=3, rows=2)], thorough=[dict(n=2), dict(n=2, foreign=False), dict(n=3, rows=2), dict(n=3, rows=2, foreign=False)],
         expect=['the step leaves the tuned parameters unchanged'])
def request_null_space(ctx, n, rows=1, foreign=True):
    """With parameters already tuned, measurements only move in the null space of their gradients."""
    own = ['g%d' % i for i in range(n)]
    gates = own + (['x'] if foreign else [])
    mx, eps = ctx.real('max', lo=0.01), ctx.real('eps', lo=0.01)
    pos = {g: ctx.real('pos_' + g) for g in gates}
    var = {g: ctx.real('var_' + g, lo=0) for g in gates}
    cov = [[var[g] if g == f else 0. for f in gates] for g in gates]
    est = _estimator(ctx, gates, cov, mx, eps, pos)
    jac = []
    for i, r in enumerate(ctx.choice('directions', DIRECTIONS[n, rows])):
        slope = ctx.real('slope%d' % i)
        ctx.require(ctx.Or(slope > 0.1, slope < -0.1))
        jac.append([x * slope if x else 0. for x in r])
    req = est.require_measurement(gates=own, tuned_jacobian=pd.DataFrame(jac, columns=own))
    if req is None:
        ctx.claim('below the threshold nothing is measured', True)
    else:
        ctx.claim('the request names all gates', set(req.index) == set(gates))
        d = {g: req[g] - pos[g] for g in gates}
        for r in jac:
            ctx.close('the step leaves the tuned parameters unchanged', dot(r, [d[g] for g in own]), 0., scale=1e2)
        if foreign:
            ctx.close('only the tuned gates move', d['x'], 0.)
        ctx.close('the step has the length epsilon', total([d[g] * d[g] for g in gates]), eps * eps, scale=1e2)
        c = total([d[g] * d[g] * var[g] for g in gates])
        ctx.claim('the measured direction is above the threshold', c > mx * eps * eps * (1 if ctx.symbolic else 1 - 1e-6))
    if n - rows == 1:
        if rows == 1:
            null = [-jac[0][1], jac[0][0]]          # any vector in the null space
        else:
            a, b = jac
            null = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        above = ctx.gt(total([x * x * var[g] for x, g in zip(null, own)]), mx * total([x * x for x in null]))
        ctx.claim('a measurement is required exactly above the threshold', ctx.Iff(req is not None, above))


@harness('C14', quick=[dict(n=3), dict(n=4)], thorough=[dict(n=3), dict(n=4), dict(n=5)], expect=['the most uncertain free gate is measured'])
def request_free_gates(ctx, n):
    """The tuned parameter depends on a single gate: the others are free and the most uncertain of them is measured."""
    gates = ['g%d' % i for i in range(n)]
    var = {g: ctx.real('var_' + g, lo=0) for g in gates}
    mx, eps = ctx.real('max', lo=0.01), ctx.real('eps', lo=0.01)
    pos = {g: ctx.real('pos_' + g) for g in gates}
    est = _estimator(ctx, gates, [[var[g] if g == f else 0. for f in gates] for g in gates], mx, eps, pos)
    tuned = ctx.choice('tuned', gates)
    slope = ctx.real('slope')
    ctx.require(ctx.Or(slope > 0.1, slope < -0.1))
    own = gates[::-1]
    req = est.require_measurement(gates=own, tuned_jacobian=pd.DataFrame([[slope if g == tuned else 0. for g in own]], columns=own))
    free = [g for g in gates if g != tuned]
    ctx.claim('a measurement is required exactly above the threshold', ctx.Iff(req is not None, ctx.Or(*[ctx.gt(var[g], mx) for g in free])))
    if req is None:
        return
    ctx.claim('the request names all gates', set(req.index) == set(gates))
    d = {g: req[g] - pos[g] for g in gates}
    small = {g: d[g] == 0. if ctx.symbolic else abs(d[g]) < 1e-6 * (1 + abs(pos[g])) for g in gates}
    for g in gates:
        # equal uncertainties leave the choice to the implementation
        ctx.claim('the most uncertain free gate is measured', ctx.Or(small[g], g in free and ctx.And(*[ctx.ge(var[g], var[f]) for f in free])))
    ctx.close('the step has the length epsilon', total([d[g] * d[g] for g in gates]), eps * eps, scale=1e2)


# ---- C26 ---------------------------------------------------------------------------------------------------------
@harness('C26', quick=[dict(n=1, symmetric=False), dict(n=1, symmetric=True), dict(n=2, symmetric=False)],
         thorough=[dict(n=1, symmetric=False), dict(n=1, symmetric=True), dict(n=2, symmetric=False), dict(n=2, symmetric=True)],
         expect=['the initial gradient is exact', 'later measurements update the gradient'])
def self_initializing(ctx, n, symmetric):
    """Finite differences first; from then on a Kalman filter that starts with their result."""
    gates = ['g%d' % i for i in range(n)]
    pos = {g: ctx.real('pos_' + g) for g in gates}
    grad = {g: ctx.real('grad_' + g) for g in gates}
    c = ctx.real('offset')
    eps = {g: ctx.real('eps_' + g, lo=0.01) for g in gates}
    var = ctx.real('var', lo=0.01)
    known = ctx.flag('position known')
    est = SelfInitializingKalmanEstimator.from_scratch(current_position=series(gates, [pos[g] for g in gates]) if known else None,
                                                       epsilon=series(gates, [eps[g] for g in gates]), maximum_covariance=np.inf,
                                                       symmetric=symmetric)
    if not known:
        ctx.raises('no request before the position is known', RuntimeError, est.require_measurement)

    def value(p):
        return c + dot([grad[g] for g in gates], [p[g] for g in gates])
    p = dict(pos)
    est.update(series(gates[::-1], [p[g] for g in gates[::-1]]), value(p), var, is_new_position=True)
    for k in range(2 * n if symmetric else n):
        ctx.claim('no gradient before all measurements are done', est.estimate() is None)
        req = est.require_measurement(gates=gates)
        p = snapshot(req)
        est.update(series(gates[::-1], [p[g] for g in gates[::-1]]), value(p), var, is_new_position=True)
    ctx.close_map('the initial gradient is exact', est.estimate(), grad, tol=1e-5, scale=1e3)
    cov = est.covariance()
    ctx.claim('the initial covariance is that of the finite differences', list(cov.index) == gates and list(cov.columns) == gates)
    if n == 1:
        want = 2. * var / (eps['g0'] * eps['g0']) / (4. if symmetric else 1.)
        ctx.close('the initial covariance is that of the finite differences', cov.iloc[0, 0], want, scale=1e3)
    ctx.claim('a known gradient needs no measurement', est.require_measurement(gates=gates) is None)
    base = p
    p = {g: base[g] + ctx.real('move_' + g, lo=0.1) for g in gates}
    noise = ctx.real('noise')
    old = [[cov.iloc[i, j] for j in range(n)] for i in range(n)]
    est.update(series(gates, [p[g] for g in gates]), value(p) + noise, var, is_new_position=True)
    h = [p[g] - base[g] for g in gates]
    ph = _mv(old, h)
    s = dot(h, ph) + var
    new = est.estimate()
    for i, g in enumerate(gates):
        ctx.close('later measurements update the gradient', (new[g] - grad[g]) * s, ph[i] * noise, tol=1e-5, scale=1e3)
