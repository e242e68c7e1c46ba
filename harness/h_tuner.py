"""SubsetTuner and SensingDotTuner."""
import numpy as np
import pandas as pd

from harness.common import StubEvaluator, StubSolver, dot, make_target, series, snapshot, total
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from symx.ctx import harness, isnan

GATES = ['a', 'b']


def _values(ctx, names, tag, nan=True):
    return {p: (ctx.maybe_nan('%s_%s' % (tag, p)) if nan else ctx.real('%s_%s' % (tag, p))) for p in names}


# ---- C04 ---------------------------------------------------------------------------------------------------------
@harness('C04', quick=[dict(n=1, split=False), dict(n=2, split=True), dict(n=2, split=False)],
         thorough=[dict(n=1, split=False), dict(n=2, split=True), dict(n=2, split=False), dict(n=3, split=True)],
         expect=['tuned exactly when all parameters are within tolerance', 'a failed evaluation is never tuned'])
def subset_decision(ctx, n, split):
    names = ['p%d' % i for i in range(n)]
    ignored = [ctx.flag('ignored_%s' % p) for p in names]
    desired = {p: np.nan if ig else ctx.real('desired_' + p) for p, ig in zip(names, ignored)}
    tol = {p: np.nan if ig else ctx.real('tol_' + p) for p, ig in zip(names, ignored)}
    factor = {p: ctx.real('factor_' + p) for p in names}
    for p in names:
        ctx.require(ctx.Or(factor[p] > 0, factor[p] < 0))
    raw = _values(ctx, names, 'value')
    var = _values(ctx, names, 'var', nan=False)
    target = make_target(desired=series(names, desired.values()), tolerance=series(names[::-1], [tol[p] for p in names[::-1]]),
                         rescaling_factor=series(names, factor.values()))
    groups = [[p] for p in names[::-1]] if split else [names[::-1]]
    evs = [StubEvaluator(g, lambda g=g: (series(g, [raw[p] for p in g]), series(g[::-1], [var[p] for p in g[::-1]])))
           for g in groups]
    solver = StubSolver(target, series(GATES, [0., 0.]))
    start = {'z': ctx.real('vz'), 'b': ctx.real('vb'), 'a': ctx.real('va')}
    old = series(start, [0., 0., 0.])
    if all(ignored):
        return
    tuner = SubsetTuner(evs, GATES, solver=solver, tuned_voltages=[old], evaluatable_voltages=[old], last_voltage=old)
    res = bool(tuner.is_tuned(series(start, start.values())))
    scaled = {p: (np.nan if isnan(raw[p]) else raw[p] / factor[p]) for p in names}
    scaled_var = {p: var[p] / factor[p] ** 2 for p in names}
    relevant = [p for p, ig in zip(names, ignored) if not ig]
    ctx.claim('every evaluator is asked exactly once', all(e.calls == 1 for e in evs))
    if any(isnan(raw[p]) for p in relevant):
        ctx.claim('a failed evaluation is never tuned', not res)
        ctx.claim('a failed evaluation is recorded as failed', bool(tuner.last_evaluation_failed))
        ctx.claim('the solver does not learn from a failed evaluation', not solver.updates)
        ctx.claim('a failed evaluation adds no tuned voltages', len(tuner.tuned_voltages) == 1)
        return
    within = ctx.And(*[ctx.lt(abs(desired[p] - scaled[p]), tol[p]) for p in relevant])
    ctx.claim('tuned exactly when all parameters are within tolerance', ctx.Iff(res, within))
    ctx.claim('a successful evaluation is not recorded as failed', not tuner.last_evaluation_failed)
    ctx.claim('the solver is updated exactly once', len(solver.updates) == 1)
    ctx.claim('tuned voltages grow exactly when tuned', len(tuner.tuned_voltages) == (2 if res else 1))
    if res:
        ctx.close_map('the tuned voltages are the current ones', tuner.tuned_voltages[-1], start)
    for pos, val, va in solver.updates:
        ctx.close_map('the solver learns the position', series(pos, pos.values()), start)
        for p in names:
            ctx.claim('the solver learns every parameter', p in val and p in va)
            ctx.close('the solver learns rescaled values', val.get(p, np.nan), scaled[p])
            ctx.close('the solver learns rescaled variances', va.get(p, np.nan), scaled_var[p])
    values, variances = tuner.last_parameters_and_variances
    for p in relevant:
        ctx.close('the last values are the rescaled ones', values[p], scaled[p])
        ctx.close('the last variances are the rescaled ones', variances[p], scaled_var[p])


@harness('C04', expect=['tuned exactly when all parameters with a tolerance are within it'])
def subset_decision_missing_tolerance(ctx):
    """A parameter without tolerance never keeps the tuner from being tuned; one without target needs no evaluator."""
    names = ['p', 'q', 'r']
    has_tol = {'p': ctx.flag('tol_p?'), 'q': ctx.flag('tol_q?')}
    desired = {'p': ctx.real('dp'), 'q': ctx.real('dq'), 'r': np.nan}
    tol = {'p': ctx.real('tp') if has_tol['p'] else np.nan, 'q': ctx.real('tq') if has_tol['q'] else np.nan, 'r': np.nan}
    val = {'p': ctx.real('p'), 'q': ctx.real('q')}
    measured = ['p', 'q']
    target = make_target(desired=series(names, desired.values()), tolerance=series(names, tol.values()))
    ev = StubEvaluator(measured, lambda: (series(measured, [val[k] for k in measured]), series(measured, [1., 1.])))
    solver = StubSolver(target, series(['a'], [0.]))
    tuner = SubsetTuner([ev], ['a'], solver=solver, last_voltage=series(['a'], [0.]))
    res = bool(tuner.is_tuned(series(['a'], [ctx.real('va')])))
    within = ctx.And(True, *[ctx.lt(abs(desired[p] - val[p]), tol[p]) for p in measured if has_tol[p]])
    ctx.claim('tuned exactly when all parameters with a tolerance are within it', ctx.Iff(res, within))


# ---- C05 ---------------------------------------------------------------------------------------------------------
def _norm2(xs):
    return total([x * x for x in xs])


@harness('C05', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)],
         expect=['a step within the limit is taken completely', 'a longer step is cut to the limit'], int_bound=7)
def step_limit(ctx, n):
    """One suggestion: limit, direction, gates that are not tuned."""
    gates = ['g%d' % i for i in range(n)]
    limited = ctx.flag('limited')
    size = ctx.real('max_step') if limited else np.nan
    if limited:
        ctx.require(size > 0)
    number = ctx.choice('max_number', [1, 2, 3])
    last = {'x': ctx.real('last_x'), **{g: ctx.real('last_' + g) for g in gates}, 'y': ctx.real('last_y')}
    goal = {g: ctx.real('goal_' + g) for g in gates[::-1]}
    delta = [goal[g] - last[g] for g in gates]
    if limited:
        ctx.require(_norm2(delta) < 49 * size * size)
    target = make_target(desired=series(['p'], [0.]), tolerance=series(['p'], [1.]))
    solver = StubSolver(target, series(gates, [last[g] for g in gates]), lambda: series(goal, goal.values()))
    passed = {'q', 'r'}
    tuner = SubsetTuner([StubEvaluator(['p'], lambda: None)], gates, maximal_step_size=size, maximal_step_number=number,
                        solver=solver, last_voltage=series(last, last.values()))
    nxt = tuner.get_next_voltages(tuned_parameters=passed)
    ctx.claim('the next voltages cover exactly the known gates', set(nxt.index) == set(last) and len(nxt) == len(last))
    for g in ('x', 'y'):
        ctx.close('gates that are not tuned keep their voltage', nxt[g], last[g])
    ctx.claim('the solver learns which parameters are tuned', solver.asked == [passed])
    step = [nxt[g] - last[g] for g in gates]
    if limited:
        fits = ctx.le(_norm2(delta), size * size)
    else:
        fits = True
    if bool(fits):
        for s, d in zip(step, delta):
            ctx.close('a step within the limit is taken completely', s, d)
    else:
        ctx.close('a longer step is cut to the limit', _norm2(step), size * size)
        for i in range(n):
            for j in range(i):
                ctx.close('a cut step keeps its direction', step[i] * delta[j], step[j] * delta[i])
        ctx.claim('a cut step keeps its orientation', ctx.gt(dot(step, delta), 0))
    for k in last:
        ctx.close('the known voltages are not modified', tuner.last_voltages[k], last[k])


@harness('C05', quick=[dict(kind='absolute', rounds=4), dict(kind='relative', rounds=4), dict(kind='free', rounds=3)],
         thorough=[dict(kind='absolute', rounds=6), dict(kind='relative', rounds=6), dict(kind='free', rounds=4)],
         expect=['evaluations are skipped for at most the allowed number of steps', 'the parameters are evaluated'], int_bound=5)
def queued_steps(ctx, kind, rounds):
    """Histories of moves: steps without evaluation are bounded by the maximal step number and the distance."""
    size = ctx.real('max_step')
    ctx.require(size > 0)
    number = ctx.choice('max_number', [1, 2, 3])
    pos = {'a': ctx.real('start')}
    state = dict(k=0)
    distance = ctx.real('distance')
    ctx.require(ctx.And(distance < 5 * size, distance > -5 * size))
    goal = pos['a'] + distance

    def suggestion():
        state['k'] += 1
        if kind == 'absolute':
            return series(['a'], [goal])
        if kind == 'relative':
            return series(['a'], [pos['a'] + distance])
        d = ctx.real('d%d' % state['k'])
        ctx.require(ctx.And(d < 5 * size, d > -5 * size))
        state['d'] = d
        return series(['a'], [pos['a'] + d])
    evals = dict(n=0)

    def evaluate():
        evals['n'] += 1
        return series(['p'], [5.]), series(['p'], [1.])
    target = make_target(desired=series(['p'], [0.]), tolerance=series(['p'], [1.]))
    solver = StubSolver(target, series(['a'], [pos['a']]), suggestion)
    tuner = SubsetTuner([StubEvaluator(['p'], evaluate)], ['a'], maximal_step_size=size, maximal_step_number=number,
                        solver=solver, last_voltage=series(['a'], [pos['a']]))
    skipped = 0
    allowed = None
    for k in range(rounds):
        nxt = tuner.get_next_voltages()
        asked = (goal - pos['a']) if kind == 'absolute' else (distance if kind == 'relative' else state['d'])
        moved = nxt['a'] - pos['a']
        ctx.claim('no move is longer than the limit', ctx.And(moved <= size, moved >= -size) if ctx.symbolic else
                  abs(moved) <= size * (1 + 1e-6) + 1e-12)
        if skipped == 0:
            # a new decision: up to min(number, floor(distance/limit)) moves may follow without evaluation in between
            allowed = 1
            for j in (2, 3):
                if j <= number and bool(ctx.ge(abs(asked), j * size)):
                    allowed = j
        pos['a'] = nxt['a']
        before = evals['n']
        res = tuner.is_tuned(series(['a'], [pos['a']]))
        ctx.claim('an out of range parameter is not tuned', not bool(res))
        ctx.close('the tuner knows the current voltages', tuner.last_voltages['a'], pos['a'])
        if evals['n'] == before:
            skipped += 1
            ctx.claim('evaluations are only skipped on the way', not bool(ctx.le(abs(asked), size)))
            ctx.claim('evaluations are skipped for at most the allowed number of steps', skipped < allowed)
            ctx.close('the solver follows moves without evaluation', solver.current_position['a'], pos['a'])
            ctx.claim('no tuned voltages without evaluation', not tuner.tuned_voltages)
        else:
            ctx.claim('the parameters are evaluated', True)
            ctx.claim('one evaluation per step', evals['n'] == before + 1)
            skipped = 0


# ---- C06 ---------------------------------------------------------------------------------------------------------
@harness('C06', quick=[dict(rounds=3)], thorough=[dict(rounds=5)],
         expect=['after a failed evaluation the next voltages are half way back', 'after a good evaluation the solver decides'])
def recovery_subset(ctx, rounds):
    gates = ['a', 'b']
    good = {'b': ctx.real('good_b'), 'a': ctx.real('good_a'), 'z': ctx.real('good_z')}
    older = {'a': ctx.real('older_a'), 'b': 0., 'z': 0.}
    value = dict(v=None)
    target = make_target(desired=series(['r', 'p', 'q'], [0., 0., np.nan]), tolerance=series(['r', 'p', 'q'], [1., 1., np.nan]))
    free = dict(n=0)

    def suggestion():
        free['n'] += 1
        return series(gates, [ctx.real('s%d_%s' % (free['n'], g)) for g in gates])
    solver = StubSolver(target, series(gates, [0., 0.]), suggestion)
    ev = StubEvaluator(['p', 'q'], lambda: (series(['p', 'q'], [value['v'], value['q']]), series(['p', 'q'], [1., 1.])))
    ev2 = StubEvaluator(['r'], lambda: (series(['r'], [value['r']]), series(['r'], [1.])))
    tuner = SubsetTuner([ev, ev2], gates, solver=solver, last_voltage=series(good, good.values()),
                        evaluatable_voltages=[series(older, older.values()), series(good, good.values())])
    cur = {g: ctx.real('start_' + g) for g in ('a', 'b', 'z')}
    n_tuned = 0
    for k in range(rounds):
        failed = ctx.flag('fail%d' % k)
        who = ctx.choice('failing%d' % k, ['p', 'r', 'pr']) if failed else ''
        value['v'] = np.nan if 'p' in who else ctx.real('v%d' % k)
        value['r'] = np.nan if 'r' in who else 0.5
        value['q'] = np.nan if ctx.flag('q_nan%d' % k) else 1.
        res = bool(tuner.is_tuned(series(cur, cur.values())))
        asked = len(solver.asked)
        if failed:
            ctx.claim('a failed evaluation is not tuned', not res)
            ctx.claim('failure is reported', bool(tuner.last_evaluation_failed))
            nxt = tuner.get_next_voltages()
            ctx.close_map('after a failed evaluation the next voltages are half way back', nxt,
                          {g: 0.5 * (good[g] + cur[g]) for g in cur})
            ctx.claim('the solver is not asked after a failed evaluation', len(solver.asked) == asked)
        else:
            ctx.claim('success clears the failure', not tuner.last_evaluation_failed)
            good = dict(cur)
            n_tuned += res
            nxt = tuner.get_next_voltages()
            ctx.claim('after a good evaluation the solver decides', len(solver.asked) == asked + 1)
            for g in gates:
                ctx.close('the suggestion of the solver is used', nxt[g], solver_suggested(ctx, free['n'], g))
        ctx.claim('only good points become tuned voltages', len(tuner.tuned_voltages) == n_tuned)
        cur = snapshot(nxt)


def solver_suggested(ctx, n, g):
    return ctx.real('s%d_%s' % (n, g))


@harness('C06', quick=[dict(rounds=3)], thorough=[dict(rounds=4)],
         expect=['after a failed evaluation the sensing dot goes half way back'])
def recovery_sensing_dot(ctx, rounds):
    gates = ['a']
    good = {'z': ctx.real('good_z'), 'a': ctx.real('good_a')}
    value = dict(v=None)
    target = make_target(minimum=series(['p', 'r'], [0., 0.]), cost_threshold=series(['p', 'r'], [-100., -100.]))
    solver = StubSolver(target, series(gates, [0.]), lambda: series(gates, [ctx.real('s')]))
    ev = StubEvaluator(['p', 'r'], lambda: (series(['p', 'r'], [value['v'], value['r']]), series(['p', 'r'], [1., 1.])))
    ex = StubEvaluator(['q'], lambda: (series(['q'], [0.]), series(['q'], [1.])))
    tuner = SensingDotTuner([ev], [ex], gates, solver=solver, last_voltage=series(good, good.values()),
                            tuned_voltages=[series(good, good.values())])
    cur = {g: ctx.real('start_' + g) for g in ('a', 'z')}
    for k in range(rounds):
        failed = ctx.flag('fail%d' % k)
        who = ctx.choice('failing%d' % k, ['p', 'r', 'pr']) if failed else ''
        value['v'] = np.nan if 'p' in who else ctx.real('v%d' % k)
        value['r'] = np.nan if 'r' in who else 1.
        res = bool(tuner.is_tuned(series(cur, cur.values())))
        asked = len(solver.asked)
        if failed:
            ctx.claim('a failed evaluation is not tuned', not res)
            nxt = tuner.get_next_voltages()
            ctx.close_map('after a failed evaluation the sensing dot goes half way back', nxt,
                          {g: 0.5 * (good[g] + cur[g]) for g in cur})
            ctx.claim('the solver is not asked after a failed evaluation', len(solver.asked) == asked)
            cur = snapshot(nxt)
        else:
            ctx.claim('tuned exactly above the minimum', ctx.Iff(res, ctx.gt(value['v'], 0.)))
            if res:
                good = dict(cur)
            nxt = tuner.get_next_voltages()
            ctx.claim('after a good evaluation the solver decides', len(solver.asked) == asked + 1)
            cur = dict(cur, a=ctx.real('s'))


# ---- C07 ---------------------------------------------------------------------------------------------------------
@harness('C07', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)],
         expect=['tuned exactly when every signal exceeds its minimum', 'the expensive evaluation runs exactly when needed'])
def sensing_dot(ctx, n):
    cheap = ['c%d' % i for i in range(n)]
    exp = ['c0', 'e']
    names = cheap + ['e']
    minimum = {p: ctx.maybe_nan('min_' + p) for p in cheap}
    cost = {p: ctx.maybe_nan('cost_' + p) for p in cheap}
    for p in cheap:
        if not isnan(minimum[p]) and not isnan(cost[p]):
            ctx.require(cost[p] <= minimum[p])
    factor = {p: (ctx.real('factor_' + p) if p == 'c0' else 1.) for p in names}
    ctx.require(factor['c0'] > 0)
    raw = {p: (ctx.maybe_nan('v_' + p) if p == 'c0' else ctx.real('v_' + p)) for p in cheap}
    raw_var = {p: ctx.real('var_' + p) for p in cheap}
    xval = {'c0': ctx.real('x_c0'), 'e': ctx.real('x_e')}
    xvar = {'c0': ctx.real('xvar_c0'), 'e': ctx.real('xvar_e')}
    target = make_target(minimum=series(cheap + ['e'], [minimum[p] for p in cheap] + [np.nan]),
                         cost_threshold=series(names, [cost[p] for p in cheap] + [np.nan]),
                         rescaling_factor=series(names, factor.values()))
    if all(isnan(minimum[p]) for p in cheap):
        return
    rev = cheap[::-1]
    ev = StubEvaluator(rev, lambda: (series(rev, [raw[p] for p in rev]), series(rev, [raw_var[p] for p in rev])))
    ex = StubEvaluator(exp, lambda: (series(exp, [xval[p] for p in exp]), series(exp, [xvar[p] for p in exp])))
    volt = {'b': ctx.real('vb'), 'a': ctx.real('va')}
    solver = StubSolver(target, series(['a'], [0.]), lambda: series(['a'], [ctx.real('next')]))
    tuner = SensingDotTuner([ev], [ex], ['a'], solver=solver, last_voltage=series(volt, [0., 0.]))
    res = bool(tuner.is_tuned(series(volt, volt.values())))
    val = {p: (np.nan if isnan(raw[p]) else raw[p] / factor[p]) for p in cheap}
    var = {p: raw_var[p] / factor[p] ** 2 for p in cheap}
    ctx.claim('the cheap evaluation runs exactly once', ev.calls == 1)
    ctx.close_map('the tuner knows the current voltages', tuner.last_voltages, volt)
    if any(isnan(val[p]) for p in cheap):
        ctx.claim('a failed evaluation is not tuned', not res and bool(tuner.last_evaluation_failed))
        ctx.claim('a failed evaluation changes nothing else', not solver.updates and ex.calls == 0 and not tuner.tuned_voltages)
        return
    low = ctx.Or(False, *[ctx.le(val[p], minimum[p]) for p in cheap if not isnan(minimum[p])])
    bad = ctx.Or(False, *[ctx.le(val[p], cost[p]) for p in cheap if not isnan(cost[p])])
    ctx.claim('tuned exactly when every signal exceeds its minimum', ctx.Iff(res, ctx.Not(low)))
    ctx.claim('the expensive evaluation runs exactly when needed', ctx.Iff(ex.calls == 1, ctx.And(low, bad)))
    ctx.claim('the expensive evaluation runs at most once', ex.calls <= 1)
    ctx.claim('tuned voltages are recorded exactly when tuned', len(tuner.tuned_voltages) == (1 if res else 0))
    ctx.claim('not recorded as failed', not tuner.last_evaluation_failed)
    ctx.claim('the solver is updated exactly when not tuned', len(solver.updates) == (0 if res else 1))
    ctx.claim('cheap_evaluation_only tells whether the expensive evaluation was needed', bool(tuner.cheap_evaluation_only) == (ex.calls == 0))
    last, last_var = tuner.last_parameters_and_variances
    want = dict(val)
    want_var = dict(var)
    if ex.calls:
        used = {'c0': xval['c0'] / factor['c0'], 'e': xval['e']}
        used_var = {'c0': xvar['c0'] / factor['c0'] ** 2, 'e': xvar['e']}
        want.update(used)
        want_var.update(used_var)
    else:
        used, used_var = val, var
    for p in want:
        ctx.close('the last values are remembered', last[p], want[p])
        ctx.close('the last variances are remembered', last_var[p], want_var[p])
    for pos, v, w in solver.updates:
        ctx.close_map('the solver learns the position', series(pos, pos.values()), volt)
        ctx.close_map('the solver learns the values of the deciding evaluation', series(v, v.values()), used)
        ctx.close_map('the solver learns the variances of the deciding evaluation', series(w, w.values()), used_var)
    if res:
        ctx.close_map('the tuned voltages are the current ones', tuner.tuned_voltages[-1], volt)
    else:
        nxt = tuner.get_next_voltages()
        ctx.close_map('the next voltages are those of the solver', nxt, {'a': ctx.real('next')})


@harness('C07', quick=[dict(steps=2, kinds=['ok', 'nan'])], thorough=[dict(steps=3, kinds=['ok', 'nan'])],
         expect=['tuned exactly when every signal exceeds its minimum', 'the expensive evaluation runs exactly when needed',
                 'the tuned voltages are those of the tuned evaluations'], max_paths=30000)
def sensing_dot_history(ctx, steps, kinds):
    """Several evaluations of one tuner, which starts fresh or as it was saved in any state."""
    factor = ctx.real('factor')
    ctx.require(factor > 0)
    minimum, cost = ctx.real('minimum'), ctx.real('cost')
    target = make_target(minimum=series(['c', 'e'], [minimum, np.nan]), cost_threshold=series(['c', 'e'], [cost, np.nan]),
                         rescaling_factor=series(['c', 'e'], [factor, 1.]))
    now = {}
    ev = StubEvaluator(['c'], lambda: (series(['c'], [now['c']]), series(['c'], [now['cvar']])))
    ex = StubEvaluator(['e'], lambda: (series(['e'], [now['e']]), series(['e'], [now['evar']])))
    solver = StubSolver(target, series(['a'], [0.]), lambda: series(['a'], [now['next']]))
    tuned = [series(['a', 'b'], [ctx.real('t_a'), ctx.real('t_b')])]
    saved = dict(cheap_evaluation_only=ctx.flag('cheap_only'), last_evaluation_failed=ctx.flag('failed'), tuned_voltages=list(tuned),
                 last_parameter_values=series(['c', 'e'], [ctx.real('c_last'), ctx.real('e_last')]),
                 last_parameters_variances=series(['c', 'e'], [1., 1.])) if ctx.flag('saved') else dict(tuned_voltages=list(tuned))
    tuner = SensingDotTuner([ev], [ex], ['a'], solver=solver, last_voltage=series(['b', 'a'], [0., 0.]), **saved)
    want = {'c': saved['last_parameter_values']['c'], 'e': saved['last_parameter_values']['e']} if len(saved) > 1 else {'c': np.nan, 'e': np.nan}
    want_tuned = [snapshot(t) for t in tuned]
    for k in range(steps):
        volt = {g: ctx.real('v%d_%s' % (k, g)) for g in ('b', 'a')}
        failed = ctx.choice('kind%d' % k, kinds) == 'nan'
        now.update(c=np.nan if failed else ctx.real('c%d' % k), cvar=ctx.real('cvar%d' % k), e=ctx.real('e%d' % k), evar=1., next=ctx.real('next%d' % k))
        mark = ev.calls, ex.calls, len(solver.updates)
        res = bool(tuner.is_tuned(series(volt, volt.values())))
        ctx.claim('the cheap evaluation runs exactly once', ev.calls == mark[0] + 1)
        did = ex.calls - mark[1]
        learned = len(solver.updates) - mark[2]
        if failed:
            want['c'] = np.nan
            ctx.claim('a failed evaluation is not tuned', not res and bool(tuner.last_evaluation_failed))
            ctx.claim('a failed evaluation changes nothing else', did == 0 and learned == 0)
        else:
            c = now['c'] / factor
            want['c'] = c
            low, bad = ctx.le(c, minimum), ctx.le(c, cost)
            ctx.claim('tuned exactly when every signal exceeds its minimum', ctx.Iff(res, ctx.Not(low)))
            ctx.claim('the expensive evaluation runs exactly when needed', ctx.Iff(did == 1, ctx.And(low, bad)))
            ctx.claim('the expensive evaluation runs at most once', did <= 1)
            ctx.claim('the solver is updated exactly when not tuned', learned == (0 if res else 1))
            ctx.claim('not recorded as failed', not tuner.last_evaluation_failed)
            ctx.claim('cheap_evaluation_only tells whether the expensive evaluation was needed', bool(tuner.cheap_evaluation_only) == (did == 0))
            if did:
                want['e'] = now['e']
            if res:
                want_tuned.append(volt)
            else:
                pos, v, _ = solver.updates[-1]
                ctx.close_map('the solver learns the position', series(pos, pos.values()), volt)
                ctx.close_map('the solver learns the values of the deciding evaluation', series(v, v.values()), {'e': now['e']} if did else {'c': c})
        last, _ = tuner.last_parameters_and_variances
        ctx.close_map('the last values are remembered', last, want)
        ctx.claim('the tuned voltages are those of the tuned evaluations (number)', len(tuner.tuned_voltages) == len(want_tuned))
        for t, w in zip(tuner.tuned_voltages, want_tuned):
            ctx.close_map('the tuned voltages are those of the tuned evaluations', t, w)
        if not res:
            nxt = tuner.get_next_voltages()
            if failed:
                ctx.close_map('after a failure half way back to the last tuned voltages', nxt, {g: (want_tuned[-1][g] + volt[g]) * .5 for g in volt})
            else:
                ctx.close_map('the next voltages are those of the solver', nxt, {'a': now['next']})
