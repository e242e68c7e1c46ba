"""Restart of a whole hierarchy."""
import numpy as np
import pandas as pd

from harness.common import FakeExperiment, StubEvaluator, make_target, series, snapshot
from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver
from symx.ctx import harness, isnan

ALL = ['b', 's', 'a', 'z']


class Source:
    """Values of one evaluator: on target or off target as the harness decides."""

    def __init__(self, ctx, params, tuned, off):
        self.ctx, self.params, self.tuned, self.off, self.calls = ctx, params, tuned, off, 0

    def __call__(self):
        self.calls += 1
        vals = [self.tuned if self.decide() else self.off + i for i, p in enumerate(self.params)]
        return series(self.params, vals), series(self.params, [1.] * len(vals))


def _estimator(ctx, kind, gates, volt, tag):
    pos = series(gates[::-1], [volt[g] for g in gates[::-1]])
    if kind == 'fd':
        return FiniteDifferencesGradientEstimator(current_position=pos, epsilon=.5)
    kal = KalmanGradient(len(gates), 1, initial_gradient=[1.] + [.5] * (len(gates) - 1), initial_covariance_matrix=np.eye(len(gates)))
    if kind == 'kalman':
        return KalmanGradientEstimator(kal, pos, maximum_covariance=100., epsilon=.5)
    fd = FiniteDifferencesGradientEstimator(current_position=pos, epsilon=.5)
    if kind == 'self, fresh':
        return SelfInitializingKalmanEstimator(fd, kalman_arguments=dict(maximum_covariance=100., epsilon=.5))
    fd = FiniteDifferencesGradientEstimator(current_position=pos, epsilon=.5, current_estimate=series(gates, [1.] * len(gates)),
                                            covariance=pd.DataFrame(np.eye(len(gates)), index=gates, columns=gates))
    return SelfInitializingKalmanEstimator(fd, KalmanGradientEstimator(kal, pos, maximum_covariance=100., epsilon=.5))


def _parts(est):
    if isinstance(est, SelfInitializingKalmanEstimator):
        return [est, est.finite_difference_estimator] + ([est.kalman_estimator] if est.kalman_estimator else [])
    return [est]


def _moved(ctx, label, got, volt, gates):
    ctx.close_map(label, got, {g: volt[g] for g in gates})


@harness('C20', quick=[dict(kind=k, steps=s) for k in ('fd', 'kalman', 'self, fresh', 'self, ready') for s in (0, 2)],
         thorough=[dict(kind=k, steps=s) for k in ('fd', 'kalman', 'self, fresh', 'self, ready') for s in (0, 3, 5)],
         expect=['the solvers are at the present voltages', 'the estimators are at the present voltages', 'the next iteration evaluates the lowest group'])
def hierarchy(ctx, kind, steps):
    volt = {g: ctx.real('start_' + g) for g in ALL}
    exp = FakeExperiment(volt)
    src = [Source(ctx, ['sig', 'pos'], 5., -5.), Source(ctx, ['p', 'q'], 0., 3.)]
    evs = [StubEvaluator(s.params, s, 'ev%d' % i) for i, s in enumerate(src)]
    other = StubEvaluator(['pos2'], lambda: (series(['pos2'], [0.]), series(['pos2'], [1.])), 'other')
    t0 = make_target(minimum=series(['sig', 'pos'], [0., np.nan]), cost_threshold=series(['sig', 'pos'], [-100., np.nan]))
    dot = SensingDotTuner([evs[0]], [other], ['s'], solver=ForwardingSolver(t0, series(['pos'], ['s']), series(['s'], [volt['s']])))
    ests = [_estimator(ctx, kind, ['a', 'b'], volt, 'p'), _estimator(ctx, 'kalman', ['a', 'b', 's'], volt, 'q')]
    t1 = make_target(desired=series(['p', 'q'], [0., 0.]), tolerance=series(['p', 'q'], [1., 1.]))
    newton = SubsetTuner([evs[1]], ['a', 'b'], maximal_step_size=2., maximal_step_number=3,
                         solver=NewtonSolver(t1, ests, series(['a', 'b'], [volt['a'], volt['b']])))
    tuners = [dot, newton]
    auto = Autotuner(exp, tuners)
    if kind == 'kalman' and ctx.flag('a target is open'):
        newton.target = {'desired': series(['q'], [np.nan])}
    for k in range(steps):
        if auto.is_tuning_complete():
            break
        for i, s in enumerate(src):
            s.decide = (lambda i=i, k=k: ctx.flag('tuned%d_%d' % (k, i)))
        auto.iterate()
    keep = dict(tuned=[list(t.tuned_voltages) for t in tuners], target=[t.target.copy() for t in tuners],
                values=snapshot(newton.solver.to_hdf5()['current_values']),
                grads=[None if e.estimate() is None else snapshot(e.estimate()) for e in ests],
                last=[tuple(snapshot(x) for x in t.last_parameters_and_variances) for t in tuners])
    covs = [e.covariance() for e in ests]
    covs = [None if c is None else [list(r) for r in c.to_numpy()] for c in covs]
    # the experiment is configured by hand
    now = {g: ctx.real('manual_' + g) for g in ALL}
    exp.v.update(now)
    del exp.sets[:]
    calls = [s.calls for s in src]
    auto.restart()
    ctx.claim('the restart sets no voltages and evaluates nothing', not exp.sets and [s.calls for s in src] == calls)
    ctx.claim('the tuning starts at the lowest group', auto.current_tuner_index == 0 and not auto.current_tuner_status and
              auto.voltages_to_set is None and not auto.is_tuning_complete())
    for t in tuners:
        _moved(ctx, 'the tuners know the present voltages', t.last_voltages, now, ALL)
    _moved(ctx, 'the solvers are at the present voltages', dot.solver.current_position, now, ['s'])
    _moved(ctx, 'the solvers are at the present voltages', newton.solver.current_position, now, ['a', 'b'])
    for e, gates in zip(ests, (['a', 'b'], ['a', 'b', 's'])):
        for part in _parts(e):
            _moved(ctx, 'the estimators are at the present voltages', part.current_position, now, gates)
    for t, tuned, target, last in zip(tuners, keep['tuned'], keep['target'], keep['last']):
        ctx.claim('tuned voltages are kept', len(t.tuned_voltages) == len(tuned) and all(a is b or a.equals(b) for a, b in zip(t.tuned_voltages, tuned)))
        ctx.claim('targets are kept', t.target.equals(target))
        for got, want in zip(t.last_parameters_and_variances, last):
            ctx.close_map('the last values are kept', got, want)
    ctx.close_map('the values of the solver are kept', newton.solver.to_hdf5()['current_values'], keep['values'])
    for e, grad, cov in zip(ests, keep['grads'], covs):
        if isinstance(e, KalmanGradientEstimator) or kind == 'self, ready':
            ctx.close_map('the gradients of Kalman filters are kept', e.estimate(), grad)
            ctx.close_mat('the uncertainties of Kalman filters are kept', e.covariance(), cov)
    # go on: the first two iterations evaluate the groups at the present voltages, nothing is skipped
    src[0].decide = lambda: True
    src[1].decide = lambda: False
    for i in (0, 1):
        calls = [s.calls for s in src]
        auto.iterate()
        ctx.claim('the next iteration evaluates the lowest group' if i == 0 else 'nothing is skipped after a restart',
                  src[i].calls == calls[i] + 1 and src[1 - i].calls == calls[1 - i])
        ctx.claim('the evaluation happens at the present voltages', not exp.sets)
        _moved(ctx, 'the tuners know the present voltages', tuners[i].last_voltages, now, ALL)
    # the first measurement after a restart is the base point: Kalman filters learn nothing from it
    for e, grad in zip(ests, keep['grads']):
        if isinstance(e, KalmanGradientEstimator) or kind == 'self, ready':
            ctx.close_map('the manual change is not mistaken for a measurement', e.estimate(), grad)
    auto.iterate()
    nxt = auto.voltages_to_set
    ctx.claim('the next plan covers known gates', nxt is not None and set(nxt.index) <= set(ALL))
    for g in nxt.index:
        if g not in ('a', 'b'):
            ctx.close('the next plan keeps the other gates where they are now', nxt[g], now[g])
    if kind in ('fd', 'self, fresh'):        # a gradient measurement around the present voltages
        d = [nxt[g] - now[g] for g in ('a', 'b')]
        ctx.close('gradients are measured around the present voltages', d[0] * d[0] + d[1] * d[1], .25)


@harness('C20', quick=[dict(rounds=0), dict(rounds=2), dict(rounds=4)], thorough=[dict(rounds=r) for r in range(9)],
         expect=['the solver is at the present voltages', 'the next iteration evaluates'])
def nelder_mead(ctx, rounds):
    """The measured simplex is kept, the position is the present one."""
    gates = ['g1', 'g0']
    start = {g: ctx.real('start_' + g) for g in gates}
    target = make_target(desired=series(['v'], [0.]), tolerance=series(['v'], [1e-9]))
    solver = NelderMeadSolver.from_scratch(target, series(gates, [2., 1.]), series(gates, start.values()), series(['v'], [10.]))
    value = dict(k=0)

    def measure():
        value['k'] += 1
        return series(['v'], [11. + ((7 * value['k']) % 5) * .5 + value['k'] * .01]), series(['v'], [1.])
    ev = StubEvaluator(['v'], measure)
    tuner = SubsetTuner([ev], gates, solver=solver)
    exp = FakeExperiment(dict(start, z=ctx.real('z')))
    auto = Autotuner(exp, [tuner])
    for k in range(3 * rounds - (rounds > 0 and ctx.choice('phase', [0, 1, 2]))):
        auto.iterate()
    simplex = [(snapshot(p), snapshot(v)) for p, v in solver.simplex]
    now = {g: ctx.real('now_' + g) for g in gates}
    exp.v.update(now)
    del exp.sets[:]
    auto.restart()
    _moved(ctx, 'the solver is at the present voltages', solver.current_position, now, gates)
    ctx.claim('the measured simplex is kept', len(solver.simplex) == len(simplex))
    for (p, v), (q, w) in zip(solver.simplex, simplex):
        ctx.close_map('the measured simplex is kept', p, q)
        ctx.close_map('the measured simplex is kept', v, w)
    for k in range(2):
        calls = ev.calls
        auto.iterate()
        ctx.claim('the next iteration evaluates', ev.calls == calls + 1)
        ctx.close_map('the evaluation happens where the solver believes to be', solver.current_position, {g: exp.v[g] for g in gates})
        auto.iterate()
        ctx.claim('the next plan covers known gates', set(auto.voltages_to_set.index) <= {'z', 'g0', 'g1'})
        auto.iterate()


@harness('C20', quick=[dict()], expect=['only known gates move', 'the first voltages are taken over'])
def partial_voltages(ctx):
    """Positions with foreign or missing gates move exactly the gates in common."""
    gates = ['a', 'b']
    old = {g: ctx.real('old_' + g) for g in gates}
    new = {'foreign': 1., 'b': ctx.real('new_b')}
    pos = series(gates, old.values())
    kind = ctx.choice('kind', ['fd', 'kalman', 'self, fresh', 'self, ready', 'newton', 'nelder_mead', 'forwarding', 'tuner'])
    want = dict(old, b=new['b'])
    target = make_target(desired=series(['p'], [0.]), tolerance=series(['p'], [1.]))
    if kind in ('fd', 'kalman', 'self, fresh', 'self, ready'):
        obj = _estimator(ctx, kind, gates, old, 'x')
    elif kind == 'newton':
        obj = NewtonSolver(target, [_estimator(ctx, 'kalman', gates, old, 'x')], pos)
    elif kind == 'nelder_mead':
        obj = NelderMeadSolver.from_scratch(target, series(gates, [2., 1.]), pos, series(['p'], [10.]))
    elif kind == 'forwarding':
        obj = ForwardingSolver(target, series(['p'], ['a']), pos)
    else:
        first = ctx.choice('known voltages', ['known', 'none', 'empty'])
        last = dict(known=series(gates, old.values()), none=None, empty=pd.Series([], dtype=float))[first]
        obj = SubsetTuner([StubEvaluator(['p'], lambda: None)], gates, solver=ForwardingSolver(target, series(['p'], ['a']), pos), last_voltage=last)
        obj.last_voltages = series(new, new.values())
        if first == 'known':
            ctx.close_map('only known gates move', obj.last_voltages, want)
        else:
            ctx.close_map('the first voltages are taken over', obj.last_voltages, new)
        return
    obj.current_position = series(new, new.values())
    ctx.close_map('only known gates move', obj.current_position, want)
    for part in _parts(obj):
        ctx.close_map('only known gates move', part.current_position, want)
    ctx.close_map('the given series is not modified', pos, old)


@harness('C20', quick=[dict()], expect=['an estimator moves to the given position'])
def change_position(ctx):
    """GradientEstimator.change_position: the estimator is where it was told to be, whatever the order of the labels."""
    gates = ['a', 'b']
    old = {g: ctx.real('old_' + g) for g in gates}
    now = {g: ctx.real('new_' + g) for g in gates}
    kind = ctx.choice('kind', ['fd', 'kalman', 'self, fresh', 'self, ready'])
    est = _estimator(ctx, kind, gates, old, 'x')
    before = est.current_position
    given = series(['b', 'a'], [now['b'], now['a']])
    est.change_position(given)
    for part in _parts(est):
        ctx.claim('the gates of an estimator do not change', set(part.current_position.index) == set(gates))
        ctx.close_map('an estimator moves to the given position', part.current_position, now)
    ctx.close_map('the previous position is not modified', before, old)
    est.update(series(gates, [now[g] for g in gates]), 3., 1., is_new_position=True)
    ctx.close_map('the given series is not modified', given, now)
    ctx.close_map('the base point is the given position', est.current_position, now)
