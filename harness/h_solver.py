"""Targets, rescaling and the ForwardingSolver."""
import numpy as np
import pandas as pd

from harness.common import StubEvaluator, StubSolver, make_target, series, snapshot
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver
from symx.ctx import harness, isnan


# ---- C15 ---------------------------------------------------------------------------------------------------------
@harness('C15', quick=[dict(n=1, rounds=2), dict(n=2, rounds=2)], thorough=[dict(n=1, rounds=4), dict(n=2, rounds=3), dict(n=3, rounds=2)],
         expect=['the next position is the measured one', 'the other gates stay where they are'])
def forwarding(ctx, n, rounds):
    """Histories of measurements: measured values move their gates, everything else stays at the measured position."""
    params = ['p%d' % i for i in range(n)]
    gates = ['g%d' % i for i in range(n + 1)]
    factor = {p: ctx.real('factor_' + p) for p in params}
    for p in params:
        ctx.require(ctx.Or(factor[p] > 0.01, factor[p] < -0.01))
    known_factor = {p: ctx.flag('factor known ' + p) for p in params}
    rescaled = [p for p in params if known_factor[p]] or params
    target = make_target(desired=series(rescaled, [0.] * len(rescaled)), rescaling_factor=series(rescaled, [factor[p] for p in rescaled]))
    mapped = {p: not (i == 1 and ctx.flag('unmapped')) for i, p in enumerate(params)}
    mapping = {p: ('g%d' % ((i + 1) % n) if mapped[p] else np.nan) for i, p in enumerate(params)}
    start = {g: ctx.real('start_' + g) for g in gates}
    first = {g: ctx.real('first_' + g) for g in gates}
    given = ctx.flag('next position given')
    order = gates[::-1]
    solver = ForwardingSolver(target, series(params, mapping.values()), series(gates, start.values()),
                              series(order, [first[g] for g in order]) if given else None)
    ctx.close_map('before any measurement the initial position is suggested', solver.suggest_next_position(None), first if given else start)
    for k in range(rounds):
        pos = {g: ctx.real('pos%d_%s' % (k, g)) for g in order + ['foreign']}
        measured = [p for p in params[::-1] if not (k == 1 and p == 'p0' and ctx.flag('p0 missing'))] + ['other']
        val = {p: ctx.real('val%d_%s' % (k, p)) for p in measured}
        var = {p: ctx.real('var%d_%s' % (k, p)) for p in measured}
        s_val, s_var = series(val, val.values()), series(var, var.values())
        s_pos = series(pos, pos.values())
        solver.update_after_step(s_pos, s_val, s_var)
        nxt = solver.suggest_next_position(set(params) if k else None)
        want = {g: pos[g] for g in gates}
        for p in params:
            if mapped[p] and p in measured:
                want[mapping[p]] = val[p] * factor[p] if p in rescaled else val[p]
        ctx.claim('the suggestion names exactly the gates of the solver', set(nxt.index) == set(gates) and len(nxt) == len(gates))
        for i, g in enumerate(gates):
            ctx.close('the next position is the measured one' if i < n else 'the other gates stay where they are', nxt[g], want[g])
        ctx.close_map('the solver knows the position of the measurement', solver.current_position, {g: pos[g] for g in gates})
        ctx.close_map('the values of the caller are not modified', s_val, val)
        ctx.close_map('the variances of the caller are not modified', s_var, var)
        ctx.close_map('the position of the caller is not modified', s_pos, pos)


@harness('C15', quick=[dict(sensing=False), dict(sensing=True)], expect=['the found voltages are set in their own scale'])
def forwarding_tuner(ctx, sensing):
    """A tuner with a ForwardingSolver moves to the found voltages; rescaling does not influence them."""
    factor = ctx.real('factor')
    ctx.require(ctx.Or(factor > 0.01, factor < -0.01))
    found = ctx.real('found')
    volt = {'b': ctx.real('vb'), 'a': ctx.real('va')}
    pos = series(['a'], [0.])
    if sensing:
        target = make_target(minimum=series(['pos', 'sig'], [np.nan, 0.]), cost_threshold=series(['pos', 'sig'], [np.nan, -1.]),
                             rescaling_factor=series(['pos', 'sig'], [factor, 1.]))
        signal = ctx.real('signal')
        ctx.require(signal < 0.)
        cheap = StubEvaluator(['pos', 'sig'], lambda: (series(['pos', 'sig'], [found, signal]), series(['pos', 'sig'], [1., 1.])))
        other = ctx.real('better')
        exp = StubEvaluator(['pos'], lambda: (series(['pos'], [other]), series(['pos'], [1.])))
        tuner = SensingDotTuner([cheap], [exp], ['a'], solver=ForwardingSolver(target, series(['pos'], ['a']), pos), last_voltage=series(volt, [0., 0.]))
        res = bool(tuner.is_tuned(series(volt, volt.values())))
        want = other if exp.calls else found
        ctx.claim('a weak signal is not tuned', not res)
    else:
        desired, tol = ctx.real('desired'), ctx.real('tol')
        target = make_target(desired=series(['pos'], [desired]), tolerance=series(['pos'], [tol]), rescaling_factor=series(['pos'], [factor]))
        ev = StubEvaluator(['pos'], lambda: (series(['pos'], [found]), series(['pos'], [1.])))
        tuner = SubsetTuner([ev], ['a'], solver=ForwardingSolver(target, series(['pos'], ['a']), pos), last_voltage=series(volt, [0., 0.]))
        res = bool(tuner.is_tuned(series(volt, volt.values())))
        ctx.claim('the decision uses the rescaled value', ctx.Iff(res, ctx.lt(abs(desired - found / factor), tol)))
        want = found
    nxt = tuner.get_next_voltages()
    ctx.close('the found voltages are set in their own scale', nxt['a'], want)


# ---- C16 ---------------------------------------------------------------------------------------------------------
@harness('C16', quick=[dict(n=2)], thorough=[dict(n=3)], expect=['values are divided by their factor', 'descaling undoes rescaling'])
def rescaling(ctx, n):
    params = ['p%d' % i for i in range(n)]
    factor = {p: ctx.real('factor_' + p) for p in params}
    for p in params:
        ctx.require(ctx.Or(factor[p] > 0.01, factor[p] < -0.01))
    default = ctx.flag('no factors')
    target = make_target(desired=series(params, [0.] * n),
                         **({} if default else dict(rescaling_factor=series(params[::-1], [factor[p] for p in params[::-1]]))))
    if default:
        factor = {p: 1. for p in params}
    solver = StubSolver(target, series(['a'], [0.]))
    names = ['extra'] + params[::-1] if ctx.flag('extra') else params[::-1]
    val = {p: (ctx.maybe_nan('v_' + p) if p == 'p0' else ctx.real('v_' + p)) for p in names}
    var = {p: ctx.real('var_' + p) for p in names}
    v, w = series(names, val.values()), series(names[::-1], [var[p] for p in names[::-1]])
    solver.rescale_values(v, w)
    ctx.claim('the labels stay', list(v.index) == names and list(w.index) == names[::-1])
    for p in names:
        f = factor.get(p, 1.)
        ctx.close('values are divided by their factor', v[p], np.nan if isnan(val[p]) else val[p] / f)
        ctx.close('variances are divided by the squared factor', w[p], var[p] / (f * f))
    solver.descale_values(v, w)
    ctx.close_map('descaling undoes rescaling', v, val)
    ctx.close_map('descaling undoes rescaling of variances', w, var)


@harness('C16', quick=[dict(n=2)], thorough=[dict(n=3)], expect=['the target holds the given values'])
def target_table(ctx, n):
    params = ['p%d' % i for i in range(n)]
    cats = ['desired', 'maximum', 'minimum', 'tolerance', 'cost_threshold', 'rescaling_factor']
    first = ctx.choice('first', cats[:4])
    given = {c: c == first or ctx.flag('given_' + c) for c in cats}
    val = {c: {p: ctx.real('%s_%s' % (c, p)) for p in params} for c in cats}
    kw = {c: series(params[::-1] if c != first else params, [val[c][p] for p in (params[::-1] if c != first else params)]) for c in cats if given[c]}
    target = make_target(**kw)
    ctx.claim('the target has a row for every parameter', set(target.index) == set(params) and len(target.index) == n)
    ctx.claim('the target has all categories', set(cats) == set(target.columns))
    for c in cats:
        for p in params:
            want = val[c][p] if given[c] else (1. if c == 'rescaling_factor' else np.nan)
            ctx.close('the target holds the given values', target.loc[p, c], want)


@harness('C16', quick=[dict(n=2)], thorough=[dict(n=3)], expect=['exactly the named targets change'])
def target_change(ctx, n):
    """Changing targets touches exactly the named entries; unknown parameters are refused."""
    params = ['p%d' % i for i in range(n)]
    cats = ['desired', 'tolerance', 'minimum', 'maximum', 'rescaling_factor', 'cost_threshold']
    old = {c: {p: ctx.real('old_%s_%s' % (c, p)) for p in params} for c in cats}
    target = make_target(**{c: series(params, [old[c][p] for p in params]) for c in cats})
    ev = StubEvaluator(params, lambda: None)
    tuner = SubsetTuner([ev], ['a'], solver=StubSolver(target, series(['a'], [0.])), last_voltage=series(['a'], [0.]))
    if ctx.flag('unknown'):
        ctx.raises('unknown parameters are refused', (KeyError, ValueError), lambda: setattr(tuner, 'target', {'desired': series(['p0', 'q'], [1., 2.])}))
        want = old
    else:
        changed = {c: [p for p in params[::-1] if ctx.flag('change_%s_%s' % (c, p))] for c in cats[:2]}
        new = {c: {p: ctx.maybe_nan('new_%s_%s' % (c, p)) for p in changed[c]} for c in changed}
        tuner.target = {c: series(new[c], new[c].values()) for c in new if new[c]}
        want = {c: dict(old[c], **new.get(c, {})) for c in cats}
    for c in cats:
        for p in params:
            ctx.close('exactly the named targets change', tuner.target.loc[p, c], want[c][p])
    ctx.claim('no row or column is added', tuner.target.shape == (n, 6))
