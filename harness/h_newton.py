"""NewtonSolver."""
import numpy as np
import pandas as pd

from harness.common import FakeExperiment, StubEstimator, StubEvaluator, dot, make_target, series, snapshot, total
from qtune.autotuner import Autotuner
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver
from symx.ctx import harness, isnan


def _perm(names, shift):
    names = list(names)
    return names[shift:] + names[:shift]


def _newton(ctx, m, k, nan=True, extra=True, symbolic_position=True, structure=None):
    params = ['p%d' % i for i in range(m)]
    gates = ['g%d' % i for i in range(k)]
    desired = {p: (ctx.maybe_nan('desired_' + p) if nan else ctx.real('desired_' + p)) for p in params}
    pos = {g: ctx.real('pos_' + g) for g in gates}
    values = {p: ctx.real('value_' + p) for p in params}
    grad = {p: {} for p in params}
    for i, p in enumerate(params):
        for j, g in enumerate(gates):
            if structure == 'triangular' and j > i:
                grad[p][g] = 0.
            else:
                grad[p][g] = ctx.real('d%s_%s' % (p, g))
    ests = []
    for i, p in enumerate(params):
        labels = _perm(gates + (['extra'] if extra else []), (i + 1) % (k + (1 if extra else 0)))
        full = dict(grad[p], extra=3.)
        ests.append(StubEstimator(series(labels, [pos.get(g, 7.) for g in labels]), series(labels, [full[g] for g in labels])))
    target = make_target(desired=series(params, [desired[p] for p in params]),
                         tolerance=series(params, [np.nan if isnan(desired[p]) else 1. for p in params]))
    solver = NewtonSolver(target, ests, series(gates, [pos[g] for g in gates]),
                          series(params[::-1], [values[p] for p in params[::-1]]))
    return solver, params, gates, desired, pos, values, grad, ests


@harness('C08', quick=[dict(m=1, k=1), dict(m=1, k=2), dict(m=2, k=2), dict(m=1, k=3)],
         thorough=[dict(m=1, k=1), dict(m=1, k=2), dict(m=2, k=2), dict(m=1, k=3), dict(m=2, k=3), dict(m=3, k=3, structure='triangular')],
         expect=['the step fulfils the normal equations'])
def newton_step(ctx, m, k, structure=None):
    """The step solves (J s = target - value) in the least squares sense; NaN targets have residual 0."""
    solver, params, gates, desired, pos, values, grad, ests = _newton(ctx, m, k, structure=structure)
    nxt = solver.suggest_next_position()
    ctx.claim('the suggestion names exactly the gates of the solver', list(sorted(nxt.index)) == sorted(gates))
    s = {g: nxt[g] - pos[g] for g in gates}
    want = {p: (0. if isnan(desired[p]) else desired[p] - values[p]) for p in params}
    res = {p: dot([grad[p][g] for g in gates], [s[g] for g in gates]) - want[p] for p in params}
    for g in gates:
        ctx.close('the step fulfils the normal equations', dot([grad[p][g] for p in params], [res[p] for p in params]), 0.,
                  scale=1e3)
    # minimal norm: the step has no component the gradients do not see
    if k == 2 and m == 1:
        p = params[0]
        ctx.close('the step is the shortest one', s['g0'] * grad[p]['g1'], s['g1'] * grad[p]['g0'])
    if m == 1:
        p = params[0]
        zero = ctx.And(*[grad[p][g] == 0. for g in gates])
        if bool(zero):
            for g in gates:
                ctx.close('without any gradient the solver stays', s[g], 0.)
        else:
            ctx.close('the linear model reaches the target', res[p], 0.)
            for i in range(k):
                for j in range(i):
                    ctx.close('the step is the shortest one', s[gates[i]] * grad[p][gates[j]], s[gates[j]] * grad[p][gates[i]])
    if m == 2 and k == 2:
        det = grad['p0']['g0'] * grad['p1']['g1'] - grad['p0']['g1'] * grad['p1']['g0']
        if bool(ctx.Or(det > 0.001, det < -0.001)):
            for p in params:
                ctx.close('the linear model reaches the target', res[p], 0., scale=1e3)
    if m == 2 and k == 3:
        r0, r1 = ([grad[p][g] for g in gates] for p in params)
        cross = [r0[1] * r1[2] - r0[2] * r1[1], r0[2] * r1[0] - r0[0] * r1[2], r0[0] * r1[1] - r0[1] * r1[0]]
        n2 = total([c * c for c in cross])
        if bool(n2 > 0.001):
            ctx.close('the step is the shortest one', dot(cross, [s[g] for g in gates]), 0., scale=1e3)
            for p in params:
                ctx.close('the linear model reaches the target', res[p], 0., scale=1e3)
    if structure == 'triangular':
        d = grad['p0']['g0'] * grad['p1']['g1'] * grad['p2']['g2']
        if bool(ctx.Or(d > 0.001, d < -0.001)):
            for p in params:
                ctx.close('the linear model reaches the target', res[p], 0., scale=1e3)
    for g in gates:
        ctx.close('the current position is not modified', solver.current_position[g], pos[g])
    state = solver.state
    ctx.close_map('the state is the jacobian', state, {'d%s/d%s' % (p, g): grad[p][g] for p in params for g in gates})


@harness('C08', quick=[dict(m=2, k=2)], thorough=[dict(m=2, k=2), dict(m=3, k=3)],
         expect=['the first request is followed', 'without request the solver steps'])
def newton_requests(ctx, m, k):
    """Gradient measurements take priority, in order; parameters without target request nothing."""
    params = ['p%d' % i for i in range(m)]
    gates = ['g%d' % i for i in range(k)]
    desired = {p: ctx.maybe_nan('desired_' + p) for p in params}
    ests, req = [], {}
    for p in params:
        kind = ctx.choice('request_' + p, ['none', 'empty', 'some'])
        req[p] = None if kind == 'none' else (pd.Series(dtype=float) if kind == 'empty' else series(gates, [ctx.real('r_%s_%s' % (p, g)) for g in gates]))
        ests.append(StubEstimator(series(gates, [0.] * k), series(gates[::-1], [1. + i for i in range(k)]), req[p]))
    target = make_target(desired=series(params, desired.values()))
    solver = NewtonSolver(target, ests, series(gates, [0.] * k), series(params, [0.] * m))
    tuned = {p for p in params if ctx.flag('tuned_' + p)} | {'somewhere else'}
    nxt = solver.suggest_next_position(tuned_parameters=tuned)
    expected = next((p for p in params if not isnan(desired[p]) and req[p] is not None and len(req[p])), None)
    if expected is not None:
        ctx.close_map('the first request is followed', nxt, snapshot(req[expected]))
    else:
        ctx.claim('without request the solver steps', set(nxt.index) == set(gates))
    for p, e in zip(params, ests):
        if isnan(desired[p]):
            ctx.claim('a parameter without target requests no measurement', not e.asked)
        elif expected is None:
            ctx.claim('every relevant estimator is asked once', len(e.asked) == 1)
    for e in ests:
        for asked_gates, jac in e.asked:
            ctx.claim('only the gates of the solver are asked for', sorted(asked_gates) == gates)
            own = [p for p in params if p in tuned]
            if not own:
                ctx.claim('no tuned parameters, no tuned jacobian', jac is None)
            else:
                ctx.claim('the tuned jacobian covers the tuned parameters', jac is not None and jac.shape == (len(own), k) and list(jac.columns) == gates)
                if jac is not None and jac.shape == (len(own), k):
                    for i in range(len(own)):
                        ctx.close_seq('the tuned jacobian holds their gradients', list(jac.iloc[i]), [float(k - j) for j in range(k)])


@harness('C08', expect=['the tuner knows whether gradients have to be measured'])
def estimators_ready(ctx):
    """A hierarchy of a sensing dot and two groups tuned by gradients: are measurements for gradients due?"""
    gates = ['b', 'a']
    pos = series(gates, [0., 0.])
    exp = FakeExperiment({'a': 0., 'b': 0., 's': 0.})
    due, fewer = False, ctx.flag('one gate')
    tuners = []
    for k in range(2):
        ests, params = [], ['p%d' % k, 'q%d' % k]
        for p in params:
            kind = ctx.choice('request_' + p, ['none', 'empty', 'some'])
            due = due or kind == 'some'
            ests.append(StubEstimator(pos.copy(), series(gates, [1., 2.]), None if kind == 'none' else pd.Series(dtype=float) if kind == 'empty' else
                                      series(gates[:1], [ctx.real('r_' + p)]) if fewer else series(gates, [ctx.real('r_' + p), ctx.real('s_' + p)])))
        target = make_target(desired=series(params, [0., 0.]), tolerance=series(params, [1., 1.]))
        tuners.append(SubsetTuner([], gates, solver=NewtonSolver(target, ests, pos.copy(), series(params, [0., 0.])), last_parameter_values=series(params, [0., 0.]),
                                  last_parameters_variances=series(params, [0., 0.])))
    other = ForwardingSolver(make_target(minimum=series(['sig'], [0.])), series(['pos'], ['s']), series(['s'], [0.]))
    tuners.insert(ctx.choice('where', [0, 1, 2]), SensingDotTuner([StubEvaluator(['sig', 'pos'], None)], [], ['s'], solver=other))
    got = Autotuner(exp, tuners).all_estimators_ready
    ctx.claim('the tuner knows whether gradients have to be measured', bool(got) == (not due))


# ---- C09 ---------------------------------------------------------------------------------------------------------
@harness('C09', quick=[dict(m=1, k=2), dict(m=2, k=2), dict(m=3, k=3)], thorough=[dict(m=1, k=2), dict(m=2, k=2), dict(m=3, k=3), dict(m=4, k=4)],
         expect=['every estimator learns its own value'])
def newton_update(ctx, m, k):
    """After a measurement every estimator with a target gets its own value and variance, by label."""
    solver, params, gates, desired, pos, values, grad, ests = _newton(ctx, m, k)
    new_pos = {g: ctx.real('new_' + g) for g in _perm(gates, 1) + ['foreign']}
    val = {p: ctx.real('val_' + p) for p in _perm(params, 1) + ['other']}
    var = {p: ctx.real('var_' + p) for p in params[::-1] + ['other']}
    before = dict(new_pos), dict(val), dict(var)
    s_pos, s_val, s_var = series(new_pos, new_pos.values()), series(val, val.values()), series(var, var.values())
    solver.update_after_step(s_pos, s_val, s_var)
    for p, e in zip(params, ests):
        if isnan(desired[p]):
            ctx.claim('a parameter without target is not updated', not e.updates)
            continue
        ctx.claim('every estimator is updated once', len(e.updates) == 1)
        position, value, variance, is_new = e.updates[0]
        ctx.close('every estimator learns its own value', value, val[p])
        ctx.close('every estimator learns its own variance', variance, var[p])
        for g in gates:
            ctx.close('every estimator learns the position', position.get(g, np.nan), new_pos[g])
        ctx.claim('the position counts as new', is_new is True)
    ctx.close_map('the solver moves to the new position', solver.current_position, {g: new_pos[g] for g in gates})
    for a, b in zip((s_pos, s_val, s_var), before):
        ctx.close_map('the arguments are not modified', a, b)
    # the next step starts at the new position from the new values
    if m == 1:
        p = params[0]
        if isnan(desired[p]) and ctx.flag('a target after all'):
            desired[p] = ctx.real('later_desired')
            solver.target = {'desired': series([p], [desired[p]])}
        nxt = solver.suggest_next_position()
        want = 0. if isnan(desired[p]) else desired[p] - val[p]
        if bool(ctx.Or(*[ctx.Or(grad[p][g] > 0.01, grad[p][g] < -0.01) for g in gates])):
            ctx.close('the next step starts from the measured values', dot([grad[p][g] for g in gates], [nxt[g] - new_pos[g] for g in gates]), want, scale=1e3)


@harness('C09', expect=['a step without new values keeps the residual'])
def newton_position_only(ctx):
    """Restart and the position setter move the solver without touching values or targets."""
    solver, params, gates, desired, pos, values, grad, ests = _newton(ctx, 1, 2, nan=False, extra=False)
    new = {'foreign': 1., 'g1': ctx.real('n1')}
    how = ctx.choice('how', ['setter', 'restart'])
    if how == 'setter':
        solver.current_position = series(new, new.values())
    else:
        new['g0'] = ctx.real('n0')
        solver.restart(series(new, new.values()))
        for e in ests:
            ctx.claim('restart reaches the estimators', len(e.restarts) == 1)
            for g in gates:
                ctx.close('the estimators restart at the new position', e.current_position[g], new[g])
    want = dict(pos)
    want.update({g: new[g] for g in new if g in gates})
    ctx.close_map('only known gates move', solver.current_position, want)
    if bool(ctx.Or(grad['p0']['g0'] > 0.01, grad['p0']['g0'] < -0.01)):
        nxt = solver.suggest_next_position()
        ctx.close('a step without new values keeps the residual', dot([grad['p0'][g] for g in gates], [nxt[g] - want[g] for g in gates]),
                  desired['p0'] - values['p0'], scale=1e3)
