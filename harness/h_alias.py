"""Components that were built from the same series do not influence each other, and the series of the caller stay as they are."""
import numpy as np
import pandas as pd

from harness.common import StubEvaluator, make_target, series, snapshot
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver
from symx.ctx import harness, isnan

GATES = ['b', 'a']


class Given:
    """What the user has at hand when the components are built; each component may get a copy of its own."""

    def __init__(self, pos, val, shared):
        self.shared = shared
        self.items = dict(position=series(GATES, pos), epsilon=series(GATES, [.5, .25]), values=series(['p', 'q'], val), variances=series(['p', 'q'], [1., 2.]),
                          gradient=series(GATES, [1., 2.]), maximum=series(GATES, [100., 100.]), mapping=series(['p'], ['a']),
                          target=make_target(desired=series(['p', 'q'], [0., 1.]), tolerance=series(['p', 'q'], [.5, .5]), minimum=series(['p', 'q'], [0., 0.])),
                          covariance=pd.DataFrame(np.eye(2), index=GATES, columns=GATES), simplex=[],
                          nothing=series(GATES, [np.nan, np.nan]), gradient_array=np.array([1., 2.]), covariance_array=np.eye(2))

    def __getitem__(self, key):
        v = self.items[key]
        return v if self.shared else v.copy()


def _make(kind, given):
    if kind == 'fd':
        return FiniteDifferencesGradientEstimator(current_position=given['position'], epsilon=given['epsilon'])
    if kind == 'fd unset':
        return FiniteDifferencesGradientEstimator(current_position=given['nothing'], epsilon=given['epsilon'])
    if kind == 'fd symmetric':
        return FiniteDifferencesGradientEstimator(current_position=given['position'], epsilon=given['epsilon'], symmetric=True)
    if kind == 'fd known':
        return FiniteDifferencesGradientEstimator(current_position=given['position'], epsilon=given['epsilon'], current_estimate=given['gradient'], covariance=given['covariance'])
    if kind == 'kalman':
        return KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=given['gradient'], initial_covariance_matrix=given['covariance']), given['position'], given['maximum'], given['epsilon'])
    if kind == 'kalman, arrays':
        return KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=given['gradient_array'], initial_covariance_matrix=given['covariance_array']), given['position'], 100., .5)
    if kind == 'self':
        return SelfInitializingKalmanEstimator(_make('fd', given), kalman_arguments=dict(maximum_covariance=given['maximum'], epsilon=given['epsilon']))
    if kind.startswith('newton'):
        return NewtonSolver(given['target'], [_make(kind[len('newton, '):], given) for k in range(2)], given['position'], current_values=given['values'])
    if kind == 'forwarding':
        return ForwardingSolver(given['target'], given['mapping'], given['position'])
    if kind == 'simplex':
        return NelderMeadSolver.from_scratch(given['target'], span=given['epsilon'], current_position=given['position'], current_values=given['values'])
    if kind == 'subset':
        return SubsetTuner([StubEvaluator(['p', 'q'], None)], GATES, solver=_make('newton, fd known', given), last_voltage=given['position'],
                           last_parameter_values=given['values'], last_parameters_variances=given['variances'])
    if kind == 'sensing':
        return SensingDotTuner([StubEvaluator(['p', 'q'], None)], [StubEvaluator(['p'], None)], GATES, solver=_make('forwarding', given),
                               last_voltage=given['position'], last_parameter_values=given['values'], last_parameters_variances=given['variances'])
    raise KeyError(kind)


def _use(obj, op, pos, val):
    if op == 'restart':
        return obj.restart(series(GATES, pos))
    if op == 'move':
        if isinstance(obj, (SubsetTuner, SensingDotTuner)):
            obj.last_voltages = series(GATES, pos)
        else:
            obj.current_position = series(GATES, pos)
        return
    if op == 'target':
        if hasattr(obj, 'target'):
            obj.target = {'desired': series(['p'], [val[0]])}
        return
    if hasattr(obj, 'is_tuned'):
        for ev in obj.evaluators:
            ev.source = lambda ev=ev: (series(ev.parameters, val[:len(ev.parameters)]), series(ev.parameters, [1.] * len(ev.parameters)))
        obj.is_tuned(series(GATES, pos))
        obj.get_next_voltages()
    elif hasattr(obj, 'update_after_step'):
        obj.update_after_step(series(GATES, pos), series(['p', 'q'], val), series(['p', 'q'], [1., 1.]))
        obj.suggest_next_position(None)
    else:
        obj.update(series(GATES, pos), val[0], 1., is_new_position=True)
        if obj.estimate() is None:
            obj.require_measurement(GATES)


def _facts(obj):
    """Everything another part of the system gets to see of the object."""
    if isinstance(obj, (SubsetTuner, SensingDotTuner)):
        values, variances = obj.last_parameters_and_variances
        r = dict(voltages=obj.last_voltages, values=values, variances=variances, tuned=obj.tuned_voltages)
        return dict(r, **{'solver ' + k: v for k, v in _facts(obj.solver).items()})
    r = dict(position=obj.current_position)
    if isinstance(obj, (NewtonSolver, ForwardingSolver, NelderMeadSolver)):
        r.update(desired=obj.target['desired'], proposal=obj.suggest_next_position(None))
        for i, est in enumerate(getattr(obj, 'gradient_estimators', [])):
            r.update({'estimator %d %s' % (i, k): v for k, v in _facts(est).items() if k != 'request'})
        return r
    r['gradient'] = obj.estimate()
    r['request'] = None if any(isnan(v) for v in obj.current_position.values) else obj.require_measurement(GATES)
    return r


def _agree(ctx, label, got, want):
    ctx.claim(label, type(got) is type(want))
    if isinstance(want, pd.Series):
        ctx.close_map(label, got, snapshot(want))
    elif isinstance(want, pd.DataFrame):
        for c in want.columns:
            ctx.close_map(label, got[c], snapshot(want[c]))
    elif isinstance(want, np.ndarray):
        ctx.claim(label, got.shape == want.shape)
        for a, b in zip(got.ravel(), want.ravel()):
            ctx.close(label, a, b)
    elif isinstance(want, (list, tuple)):
        ctx.claim(label, len(got) == len(want))
        for a, b in zip(got, want):
            _agree(ctx, label, a, b)
    elif want is not None:
        ctx.close(label, got, want)


KINDS = ['fd', 'fd unset', 'fd symmetric', 'fd known', 'kalman', 'kalman, arrays', 'self', 'newton, fd', 'newton, fd known', 'newton, kalman', 'forwarding', 'simplex', 'subset', 'sensing']


@harness('C30', quick=[dict(first=k, steps=1) for k in KINDS], thorough=[dict(first=k, steps=1 if k == 'newton, kalman' else 2) for k in KINDS],
         expect=['the other component is not influenced', 'the series of the caller stay as they are'], max_paths=20000)
def shared_series(ctx, first, steps):
    """Two components of any kinds get the same series; one of them is used, the other one must not notice."""
    second = ctx.choice('second', KINDS)
    pos = [ctx.real('pos_' + g, lo=-8., hi=8.) for g in GATES]
    val = [ctx.real('val_' + p, lo=-8., hi=8.) for p in 'pq']
    worlds = []
    given = Given(pos, val, True)
    before = {k: (snapshot(v) if isinstance(v, pd.Series) else v.copy()) for k, v in given.items.items()}
    for g in (given, Given(pos, val, False)):
        worlds.append((_make(first, g), _make(second, g)))
    for s in range(steps):
        op = ctx.choice('op%d' % s, ['use', 'restart', 'move', 'target'])
        new = [ctx.real('pos%d_%s' % (s, g), lo=-8., hi=8.) for g in GATES]
        data = [ctx.real('val%d_%s' % (s, p), lo=-8., hi=8.) for p in 'pq']
        for a, b in worlds:
            _use(a, op, new, data)
        if op == 'target':
            break
    shared, alone = (_facts(b) for a, b in worlds)
    for k in alone:
        _agree(ctx, 'the other component is not influenced', shared[k], alone[k])
    for k, v in before.items():
        if isinstance(v, dict):
            for label, x in v.items():
                ctx.close('the series of the caller stay as they are', given.items[k][label], x)
        elif k != 'simplex':
            _agree(ctx, 'the series of the caller stay as they are', given.items[k], v)
