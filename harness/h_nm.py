"""NelderMeadSolver."""
import numpy as np
import pandas as pd

from harness.common import StubEvaluator, dot, make_target, series, snapshot, total
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NelderMeadSolver
from symx.ctx import harness, isnan


def _gates(n):
    return ['g%d' % i for i in range(n)]


def _cost(diff):
    return diff['v']


def _solver(ctx, n, sorted_simplex=True, default_cost=False):
    """A solver with a complete simplex of measured points, sorted by cost; cost = value - desired unless default."""
    gates = _gates(n)
    desired = ctx.real('desired')
    pts = [{g: ctx.real('x%d_%s' % (i, g)) for g in gates} for i in range(n + 1)]
    val = [ctx.real('v%d' % i) for i in range(n + 1)]
    for i in range(n):
        ctx.require(val[i + 1] - val[i] > 0.01)
    if default_cost:
        ctx.require(val[0] - desired > 0.01)
    target = make_target(desired=series(['v'], [desired]))
    simplex = [(series(gates, p.values()), series(['v'], [v])) for p, v in zip(pts, val)]
    solver = NelderMeadSolver(target, simplex, span=series(gates[::-1] + ['x'], [1.] * (n + 1)), current_position=simplex[-1][0],
                              current_values=simplex[-1][1], cost_function=None if default_cost else _cost, state='start_iteration')
    return solver, gates, pts, val


def _same(ctx, label, got, want, gates):
    got = snapshot(got)
    ctx.claim(label + ' (gates)', set(got) == set(gates))
    for g in gates:
        ctx.close(label, got.get(g, np.nan), want[g], scale=1e2)


def _measure(ctx, solver, pos, value, gates):
    order = gates[::-1] + ['foreign']
    solver.update_after_step(series(order, [pos.get(g, 3.) for g in order]), series(['other', 'v'], [0., value]), series(['v', 'other'], [1., 1.]))


def _check_simplex(ctx, solver, want, gates):
    """want: list of (point, value); the simplex holds exactly these, sorted by value."""
    got = list(solver.simplex)
    ctx.claim('the simplex keeps its size', len(got) == len(want))
    for (p, v), (q, w) in zip(got, want):
        ctx.close('the simplex holds the accepted points by cost', v['v'], w)
        for g in gates:
            ctx.close('the simplex holds the accepted points', p[g], q[g], scale=1e2)


def _insert(ctx, simplex, new):
    """simplex without its worst entry plus new, sorted (forks on the comparisons)."""
    out = list(simplex[:-1])
    i = len(out)
    while i > 0 and bool(ctx.lt(new[1], out[i - 1][1])):
        i -= 1
    return out[:i] + [new] + out[i:]


@harness('C17', quick=[dict(n=1), dict(n=2), dict(n=2, default_cost=True)], thorough=[dict(n=1), dict(n=1, default_cost=True), dict(n=2), dict(n=2, default_cost=True), dict(n=3)],
         expect=['a good point is followed by an expansion', 'a bad point is followed by a contraction inside', 'shrinking moves all points to the best'],
         max_paths=20000)
def iteration(ctx, n, default_cost=False):
    """One complete iteration from any simplex, decided by the measured costs (no two costs are equal)."""
    solver, gates, pts, val = _solver(ctx, n, default_cost=default_cost)
    simplex = list(zip(pts, val))
    cen = {g: total([p[g] for p in pts[:-1]]) / n for g in gates}
    worst = pts[-1]

    def along(t):
        return {g: cen[g] + t * (worst[g] - cen[g]) for g in gates}

    def distinct(v):
        for _, w in simplex:
            ctx.require(ctx.Or(v - w > 0.01, v - w < -0.01))
        if default_cost:
            ctx.require(v - solver.target.desired['v'] > 0.01)
    sug = solver.suggest_next_position()
    _same(ctx, 'an iteration starts with the reflected point', sug, along(-1.), gates)
    fr = ctx.real('fr')
    distinct(fr)
    r = (along(-1.), fr)
    _measure(ctx, solver, snapshot(sug), fr, gates)
    if bool(ctx.lt(fr, val[0])):
        sug = solver.suggest_next_position()
        _same(ctx, 'a good point is followed by an expansion', sug, along(-2.), gates)
        fe = ctx.real('fe')
        distinct(fe)
        ctx.require(ctx.Or(fe - fr > 0.01, fe - fr < -0.01))
        _measure(ctx, solver, snapshot(sug), fe, gates)
        _check_simplex(ctx, solver, _insert(ctx, simplex, (along(-2.), fe) if bool(ctx.lt(fe, fr)) else r), gates)
    elif n > 1 and bool(ctx.lt(fr, val[-2])):
        _check_simplex(ctx, solver, _insert(ctx, simplex, r), gates)
    else:
        outside = bool(ctx.lt(fr, val[-1]))
        sug = solver.suggest_next_position()
        label = 'a point better than the worst is followed by a contraction outside' if outside else 'a bad point is followed by a contraction inside'
        t = -.5 if outside else .5
        _same(ctx, label, sug, along(t), gates)
        fc = ctx.real('fc')
        distinct(fc)
        ctx.require(ctx.Or(fc - fr > 0.01, fc - fr < -0.01))
        _measure(ctx, solver, snapshot(sug), fc, gates)
        if bool(ctx.lt(fc, fr if outside else val[-1])):
            _check_simplex(ctx, solver, _insert(ctx, simplex, (along(t), fc)), gates)
        else:
            new = [simplex[0]]
            shrunk = []
            for i in range(1, n + 1):
                sug = solver.suggest_next_position()
                want = {g: (pts[0][g] + pts[i][g]) / 2 for g in gates}
                _same(ctx, 'shrinking moves all points to the best', sug, want, gates)
                fs = ctx.real('fs%d' % i)
                distinct(fs)
                for _, w in shrunk:
                    ctx.require(ctx.Or(fs - w > 0.01, fs - w < -0.01))
                shrunk.append((want, fs))
                _measure(ctx, solver, snapshot(sug), fs, gates)
            for s in shrunk:
                new = _insert(ctx, new + [None], s)
            _check_simplex(ctx, solver, new, gates)
    # the next iteration starts
    p = solver.get_positions()
    c2 = {g: total([x[g] for x in p[:-1]]) / n for g in gates}
    _same(ctx, 'the next iteration starts with a reflection', solver.suggest_next_position(), {g: 2 * c2[g] - p[-1][g] for g in gates}, gates)


@harness('C17', quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], expect=['a point as good as the best is accepted without expansion'])
def ties(ctx, n):
    """Measured costs that are equal to each other."""
    solver, gates, pts, val = _solver(ctx, n)
    d = solver.target.desired['v']
    cen = {g: total([p[g] for p in pts[:-1]]) / n for g in gates}

    def along(t):
        return {g: cen[g] + t * (pts[-1][g] - cen[g]) for g in gates}
    for a, b in zip(val, val[1:]):
        ctx.require(b - a > 0.01)
    tie = ctx.choice('tie', ['best', 'second worst', 'worst', 'expansion'])
    sug = solver.suggest_next_position()
    fr = {'best': val[0], 'second worst': val[-2], 'worst': val[-1], 'expansion': ctx.real('fr')}[tie]
    if tie == 'expansion':
        ctx.require(val[0] - fr > 0.01)
    _measure(ctx, solver, snapshot(sug), fr, gates)
    if tie == 'second worst':
        _same(ctx, 'a point as good as the second worst is not accepted', solver.suggest_next_position(), along(-.5), gates)
    elif tie == 'worst':
        _same(ctx, 'a point as good as the worst is followed by a contraction inside', solver.suggest_next_position(), along(.5), gates)
    else:
        if tie == 'expansion':
            sug = solver.suggest_next_position()
            _same(ctx, 'a good point is followed by an expansion', sug, along(-2.), gates)
            _measure(ctx, solver, snapshot(sug), fr, gates)
        new = pts[:-2] + [along(-1.), pts[-2]]
        c2 = {g: total([p[g] for p in new[:-1]]) / n for g in gates}
        label = 'a point as good as the best is accepted without expansion' if tie == 'best' else 'an expansion that does not pay is not accepted'
        _same(ctx, label, solver.suggest_next_position(), {g: 2 * c2[g] - pts[-2][g] for g in gates}, gates)


@harness('C17', quick=[dict(n=1, rounds=4), dict(n=2, rounds=3)], thorough=[dict(n=1, rounds=6), dict(n=2, rounds=5)],
         expect=['the best point never gets worse', 'every point of the simplex was measured with its value'], max_paths=20000)
def history(ctx, n, rounds):
    """Any values at the suggested points (ties included) or unrequested ones: nothing is invented or lost."""
    solver, gates, pts, val = _solver(ctx, n)
    measured = [(p, v) for p, v in zip(pts, val)]
    best = val[0]
    foreign = ctx.choice('unrequested', [None] + list(range(min(rounds, 2))))
    for k in range(rounds):
        if k == foreign:
            pos = {g: ctx.real('y%d_%s' % (k, g)) for g in gates}
        else:
            sug = solver.suggest_next_position()
            ctx.claim('the suggestion is finite', set(sug.index) == set(gates) and not any(isnan(sug[g]) for g in gates))
            pos = snapshot(sug)
        v = ctx.real('f%d' % k)
        measured.append((pos, v))
        _measure(ctx, solver, pos, v, gates)
        costs = solver.get_costs()
        ctx.claim('the simplex keeps its size', len(costs) == n + 1)
        for c in costs[1:]:
            ctx.claim('the simplex is sorted by cost', ctx.le(costs[0], c))
        now = costs[0] + solver.target.desired['v']
        ctx.claim('the best point never gets worse', now <= best + (0. if ctx.symbolic else 1e-6 * (1 + abs(best))))
        best = now
        for p, w in solver.simplex:
            hit = [ctx.And(w['v'] == y, *[p[g] == x[g] for g in gates]) if ctx.symbolic else
                   abs(w['v'] - y) <= 1e-6 * (1 + abs(y)) and all(abs(p[g] - x[g]) <= 1e-6 * (1 + abs(x[g])) for g in gates)
                   for x, y in measured]
            ctx.claim('every point of the simplex was measured with its value', ctx.Or(*hit))
        _same(ctx, 'the solver knows its position', solver.current_position, pos, gates)
        ctx.close('the solver knows its values', solver.current_values['v'], v)


@harness('C17', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2), dict(n=3)],
         expect=['the simplex holds the accepted points', 'a reflection follows'])
def unrequested(ctx, n):
    """A measurement that was not asked for enters the simplex exactly if it beats the worst point."""
    solver, gates, pts, val = _solver(ctx, n)
    simplex = list(zip(pts, val))
    pos = {g: ctx.real('y_' + g) for g in gates}
    v = ctx.real('f')
    for w in val:
        ctx.require(ctx.Or(v - w > 0.01, v - w < -0.01))
    _measure(ctx, solver, pos, v, gates)
    _check_simplex(ctx, solver, _insert(ctx, simplex, (pos, v)) if bool(ctx.lt(v, val[-1])) else simplex, gates)
    p = solver.get_positions()
    cen = {g: total([x[g] for x in p[:-1]]) / n for g in gates}
    _same(ctx, 'a reflection follows', solver.suggest_next_position(), {g: 2 * cen[g] - p[-1][g] for g in gates}, gates)


@harness('C17', quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         expect=['after the build up a reflection follows'])
def build_up(ctx, n):
    """From one point: n steps of one span each, then the iteration starts."""
    gates = _gates(n)
    start = {g: ctx.real('start_' + g) for g in gates}
    span = {g: ctx.real('span_' + g, lo=0.01) for g in gates}
    first = ctx.real('v_start')
    target = make_target(desired=series(['v'], [0.]))
    solver = NelderMeadSolver.from_scratch(target, series(gates[::-1] + ['x'], [span[g] for g in gates[::-1]] + [1.]),
                                           series(gates, start.values()), series(['other', 'v'], [1., first]))
    solver = NelderMeadSolver(**dict(solver.to_hdf5(), cost_function=_cost))
    if ctx.flag('the start is measured again'):
        first = ctx.real('again')
        _measure(ctx, solver, start, first, gates)
    steps, costs = [], [first]
    for k in range(n):
        sug = solver.suggest_next_position()
        ctx.claim('the suggestion names exactly the gates', set(sug.index) == set(gates))
        d = [(sug[g] - start[g]) / span[g] for g in gates]
        ctx.close('a step of the build up has the length of the span', total([x * x for x in d]), 1.)
        for s in steps:
            ctx.close('the simplex is built up by independent steps', dot(s, d), 0.)
        steps.append(d)
        v = ctx.real('v%d' % k)
        for w in costs:
            ctx.require(ctx.Or(v - w > 0.01, v - w < -0.01))
        costs.append(v)
        _measure(ctx, solver, snapshot(sug), v, gates)
    ctx.claim('the simplex is complete', len(solver.simplex) == n + 1)
    got = solver.get_costs()
    for a, b in zip(got, got[1:]):
        ctx.claim('the complete simplex is sorted', ctx.le(a, b))
    p = solver.get_positions()
    cen = {g: total([x[g] for x in p[:-1]]) / n for g in gates}
    _same(ctx, 'after the build up a reflection follows', solver.suggest_next_position(), {g: 2 * cen[g] - p[-1][g] for g in gates}, gates)


@harness('C17', expect=['the tuner moves to the point the solver asks for'])
def in_a_tuner(ctx):
    """A SubsetTuner with a NelderMeadSolver measures exactly what the solver asks for."""
    solver, gates, pts, val = _solver(ctx, 2)
    start = {g: ctx.real('start_' + g) for g in gates}
    value = dict(v=ctx.real('first'))
    solver.target = {'tolerance': series(['v'], [0.])}
    ev = StubEvaluator(['v'], lambda: (series(['v'], [value['v']]), series(['v'], [1.])))
    tuner = SubsetTuner([ev], gates, solver=solver, last_voltage=series(['z'] + gates, [9.] + [start[g] for g in gates]))
    pos = dict(start, z=9.)
    for k in range(2):
        ctx.claim('nothing is within an empty tolerance', not tuner.is_tuned(series(pos, pos.values())))
        p = solver.get_positions()
        nxt = tuner.get_next_voltages(tuned_parameters=set())
        sug = solver.suggest_next_position()
        for g in gates:
            ctx.close('the tuner moves to the point the solver asks for', nxt[g], sug[g])
        ctx.close('gates that are not tuned keep their voltage', nxt['z'], 9.)
        pos = snapshot(nxt)
        value['v'] = ctx.real('value%d' % k)
