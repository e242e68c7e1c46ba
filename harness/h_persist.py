"""Reloaded objects behave as the saved ones would have."""
import inspect
import os

import numpy as np
import pandas as pd

import qtune.evaluator as evaluators
from harness.common import FakeExperiment, load, make_target, same_thing, save_and_load, scratch, series, snapshot, stepping, total
from qtune.autotuner import Autotuner
from qtune.evaluator import Evaluator
from qtune.experiment import Experiment, Measurement
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NelderMeadSolver, NewtonSolver
from symx.ctx import harness, isnan


# -- a device ------------------------------------------------------------------------------------------------------
class Device(FakeExperiment):
    """The values of a parameter are a function of the voltages, which all devices of a harness share."""

    def __init__(self, voltages, response):
        super().__init__(voltages)
        self.response, self.seen = response, []

    def value(self, parameter):
        self.seen.append((parameter, dict(self.v)))
        return self.response(parameter, self.v)


class DeviceEvaluator(Evaluator):
    def __init__(self, experiment, measurements=(), parameters=(), raw_x_data=None, raw_y_data=None, name='device'):
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)

    def evaluate(self):
        vals = [self.experiment.value(p) for p in self.parameters]
        return series(self.parameters, vals), series(self.parameters, [1.] * len(vals))

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return super().to_hdf5()


# -- constructor arguments -----------------------------------------------------------------------------------------
def fd(ctx, gates, **kw):
    return FiniteDifferencesGradientEstimator(current_position=series(gates, [ctx.real('fd_' + g) for g in gates]),
                                              epsilon=series(gates, [.5 + i for i, _ in enumerate(gates)]), **kw)


def filt(n=2, **kw):
    return KalmanGradient(n, 1, initial_gradient=np.arange(1., n + 1), initial_covariance_matrix=np.diag(np.arange(2., n + 2)), **kw)


def catalogue(ctx, exp):
    """name -> (class, constructor arguments), each argument different from its default."""
    g2 = ['b', 'a']
    pos = series(g2, [ctx.real('x_b'), ctx.real('x_a')])
    target = make_target(desired=series(['p', 'q'], [ctx.real('d_p'), np.nan]), tolerance=series(['p', 'q'], [ctx.real('t_p'), 1.]),
                         minimum=series(['p', 'q'], [1., 2.]), rescaling_factor=series(['p', 'q'], [2., 1.]))
    vals = series(['p', 'q'], [ctx.real('v_p'), ctx.real('v_q')])
    ev = DeviceEvaluator(exp, parameters=('p', 'q'), name='dev')
    ev2 = DeviceEvaluator(exp, parameters=('r',), name='dev2')
    meas = (Measurement('scan', center=ctx.real('m_c'), gate='g', N_points=5, options=[1., 2.], nothing=None),)
    frame = pd.DataFrame([[ctx.real('c00'), ctx.real('c01')], [ctx.real('c10'), ctx.real('c11')]], index=g2, columns=g2)
    kal = filt(state_transition_function=np.array([[1., .5], [0., 2.]]), measurement_covariance_matrix=np.array([[3.]]),
               process_noise=np.array([[1., .5], [.5, 4.]]), alpha=1.25)
    kal_args = dict(n_pos_dim=2, n_values=1, state_transition_function=np.array([[1., .5], [0., 2.]]), initial_gradient=np.array([[1., 2.]]),
                    initial_covariance_matrix=np.diag([2., 3.]), measurement_covariance_matrix=np.array([[3.]]),
                    process_noise=np.array([[1., .5], [.5, 4.]]), alpha=1.25)
    kge = KalmanGradientEstimator(kal, pos, maximum_covariance=series(g2, [5., np.inf]), epsilon=series(g2, [.1, .2]), current_value=ctx.real('k_v'))
    two = [fd(ctx, g2), kge]
    solver = NewtonSolver(target, two, pos, vals)
    raw = dict(raw_x_data=(np.array([1., 2.]), None), raw_y_data=(np.array([3., 4.]), None))
    fit = dict(fit_results=series(['offset', 'slope'], [1., 2.]), initial_fit_arguments=series(['height', 'curvature'], [3., 4.]))
    common = dict(experiment=exp, measurements=meas, name='own name', **raw)
    tuner = dict(tuned_voltages=[pos.copy()], last_voltage=pos.copy(), last_parameter_values=vals, last_parameters_variances=vals * 2,
                 last_evaluation_failed=True, evaluatable_voltages=[pos.copy(), pos.copy()])
    entries = dict(
        measurement=(Measurement, dict(name='m', center=ctx.real('m_x'), gates=['a', 'b'], N_points=3)),
        kalman=(KalmanGradient, kal_args),
        fd=(FiniteDifferencesGradientEstimator, dict(current_position=pos, epsilon=series(g2, [ctx.real('e_b'), 2.]), symmetric=True,
            current_estimate=series(g2, [ctx.real('g_b'), 1.]), covariance=frame,
            stored_measurements=[(pos.copy(), ctx.real('s_v'), 1.)], requested_measurements=[pos.copy()])),
        kalman_estimator=(KalmanGradientEstimator, dict(kalman_gradient=kal, current_position=pos, maximum_covariance=series(g2, [5., np.inf]),
            epsilon=series(g2, [ctx.real('e_b'), .2]), current_value=ctx.real('k_w'))),
        self_init=(SelfInitializingKalmanEstimator, dict(finite_difference_estimator=two[0], kalman_estimator=kge,
            kalman_arguments=dict(maximum_covariance=3., epsilon=ctx.real('ka_e')), kalman_gradient_args=dict(alpha=1.5))),
        newton=(NewtonSolver, dict(target=target, gradient_estimators=two, current_position=pos, current_values=vals)),
        nelder_mead=(NelderMeadSolver, dict(target=target, simplex=[(pos.copy(), vals.copy()), (pos + 1., vals + 1.)], span=series(g2, [ctx.real('sp'), 1.]),
            current_position=pos, current_values=vals, reflected_point=(pos + 2., vals + 3.), shrunk_points=[(pos.copy(), vals + 2.)], state='contract_inside')),
        forwarding=(ForwardingSolver, dict(target=target, values_to_position=series(['q'], ['a']), current_position=pos, next_position=pos + 1.)),
        subset=(SubsetTuner, dict(evaluators=(ev,), gates=['a', 'b'], maximal_step_size=ctx.real('mss'), maximal_step_number=7,
            number_queued_steps=3, solver=solver, **tuner)),
        sensing_tuner=(SensingDotTuner, dict(cheap_evaluators=[ev], expensive_evaluators=[ev2], gates=['a', 'b'], cheap_evaluation_only=False, solver=solver,
            **dict(tuner, last_parameter_values=series(['p', 'q', 'r'], [1., 2., ctx.real('r_v')]), last_parameters_variances=series(['p', 'q', 'r'], [1., 2., 3.])))),
        averaging=(evaluators.AveragingEvaluator, dict(evaluator=ev, n_measurement_repetitions=4, raw_x_data=[np.array([1.])], raw_y_data=[np.array([2.])], name='own name')),
        lead=(evaluators.LeadTransition, dict(common, shifting_gates=('u', 'v'), sweeping_gates=None, charge_diagram_width=ctx.real('cdw'),
            parameters=('position_u', 'position_v'), transition_positions=series(['position_u'], [ctx.real('tp')]), transition_width=ctx.real('tw'))),
        sensing1d=(evaluators.SensingDot1D, dict(common, sweeping_gate='s', parameters=('position_s', 'x', 'y'), current_signal=ctx.real('cs'),
            optimal_signal=ctx.real('os'), optimal_position=ctx.real('op'), rising_flank=False)),
        sensing2d=(evaluators.SensingDot2D, dict(common, sweeping_gates=('s', 't'), scan_range=ctx.real('sr'), parameters=('position_s', 'position_t'),
            new_voltages=series(['position_s'], [ctx.real('nv')]), rising_flank=False)),
        load_time=(evaluators.NewLoadTime, dict(common, **fit, parameters=('tl',), initial_curvature=ctx.real('ic'))),
        inter_dot=(evaluators.InterDotTCByLineScan, dict(common, **fit, parameters=('tc',), intermediate_fit_arguments=series(['offset', 'width'], [ctx.real('ifa'), 2.]))),
        lead_time=(evaluators.LeadTunnelTimeByLeadScan, dict(common, **fit, parameters=('tr', 'tf'), sample_rate=ctx.real('rate'),
            evaluation_arguments={'t_fall': ctx.real('ea'), 't_rise': 2., 'begin_rise': 3., 'begin_fall': 4.})),
        lead_time_prefit=(evaluators.LeadTunnelTimePrefitVersion, dict(common, **fit, parameters=('tr', 'tf'), sample_rate=ctx.real('rate'),
            evaluation_arguments={'t_fall': ctx.real('ea'), 't_rise': 2., 'begin_rise': 3., 'begin_fall': 4.})),
        autotuner=(Autotuner, dict(experiment=exp, tuning_hierarchy=[SubsetTuner((ev,), ['a', 'b'], solver=solver, last_voltage=pos)], current_tuner_index=1,
            current_tuner_status=True, voltage_to_set=pos + 3., last_save_file='some file')),
    )
    return entries


NAMES = ['measurement', 'kalman', 'fd', 'kalman_estimator', 'self_init', 'newton', 'nelder_mead', 'forwarding', 'subset', 'sensing_tuner', 'averaging',
         'lead', 'sensing1d', 'sensing2d', 'load_time', 'inter_dot', 'lead_time', 'lead_time_prefit', 'autotuner']
DERIVED = {'lead': {'sweeping_gates'},        # only used to make the default measurements
           'autotuner': {'append_time_to_path', 'hdf5_storage_path'}}


def _norm(x):
    """Lists and tuples are interchangeable as arguments."""
    return [_norm(i) for i in x] if isinstance(x, (list, tuple)) else x


@harness('C19', quick=[dict(names=NAMES[:9]), dict(names=NAMES[9:])], expect=['every constructor argument is restored'])
def arguments(ctx, names):
    exp, other = FakeExperiment({'a': 0., 'b': 0.}), FakeExperiment({'a': 1., 'b': 1.})
    name = ctx.choice('class', names)
    cls, kwargs = catalogue(ctx, exp)[name]
    obj = cls(**kwargs)
    twice = ctx.flag('saved twice')
    got = save_and_load(obj, reserved={'experiment': exp}, loaded_reserved={'experiment': other})
    if twice:
        got = save_and_load(got, reserved={'experiment': other}, loaded_reserved={'experiment': other})
    ctx.claim('the class is restored', type(got) is cls)
    stored = got.to_hdf5()
    ctx.claim('the constructor understands what was saved', set(stored) <= set(inspect.signature(cls.__init__).parameters) - {'self'} or
              any(p.kind == p.VAR_KEYWORD for p in inspect.signature(cls.__init__).parameters.values()))
    for key, want in kwargs.items():
        if key in DERIVED.get(name, ()):
            continue
        ctx.claim('every constructor argument is saved (%s)' % key, key in stored)
        if key not in stored:
            continue
        if key == 'experiment':
            ctx.claim('the given experiment is used', stored[key] is other)
            continue
        _same(ctx, 'every constructor argument is restored', _norm(stored[key]), _norm(want), exp, other)


def _same(ctx, label, got, want, exp, other):
    if want is exp:
        ctx.claim(label + ' (experiment)', got is other)
    elif isinstance(want, list):
        ctx.claim(label + ' (length)', isinstance(got, list) and len(got) == len(want))
        for a, b in zip(got, want):
            _same(ctx, label, _norm(a), _norm(b), exp, other)
    elif isinstance(want, dict):
        ctx.claim(label + ' (keys)', isinstance(got, dict) and set(got) == set(want))
        for k in want:
            _same(ctx, label, _norm(got[k]), _norm(want[k]), exp, other)
    elif hasattr(want, 'to_hdf5') and not isinstance(want, (pd.Series, pd.DataFrame)):
        ctx.claim(label + ' (class)', type(got) is type(want))
        _same(ctx, label, got.to_hdf5(), want.to_hdf5(), exp, other)
    else:
        same_thing(ctx, label, got, want)


# -- twins ---------------------------------------------------------------------------------------------------------
def _answer(fn):
    try:
        return 'value', fn()
    except (RuntimeError, IndexError, KeyError, ValueError, AttributeError, TypeError) as err:
        if type(err).__name__ in ('Unsupported', 'Infeasible', 'Budget', 'SymFloatError'):
            raise
        return 'error', type(err).__name__


def same_answer(ctx, label, a, b):
    (ka, va), (kb, vb) = _answer(a), _answer(b)
    ctx.claim(label + ' (kind)', ka == kb)
    if ka != kb:
        return
    if isinstance(va, pd.Series) and isinstance(vb, pd.Series):
        ctx.close_map(label, vb, snapshot(va))
    elif isinstance(va, pd.DataFrame) and isinstance(vb, pd.DataFrame):
        ctx.claim(label + ' (labels)', list(va.index) == list(vb.index) and list(va.columns) == list(vb.columns))
        for x, y in zip(va.to_numpy().ravel(), vb.to_numpy().ravel()):
            ctx.close(label, y, x)
    elif isinstance(va, np.ndarray) and isinstance(vb, np.ndarray):
        ctx.claim(label + ' (shape)', va.shape == vb.shape)
        for x, y in zip(va.ravel(), vb.ravel()):
            ctx.close(label, y, x)
    elif va is None or vb is None:
        ctx.claim(label + ' (None)', va is None and vb is None)
    elif isinstance(va, (tuple, list)):
        ctx.claim(label + ' (length)', len(va) == len(vb))
        for x, y in zip(va, vb):
            same_answer(ctx, label, lambda: x, lambda: y)
    else:
        ctx.close(label, vb, va)


def reload(obj, exp=None, other=None):
    return save_and_load(obj, reserved={'experiment': exp} if exp else None, loaded_reserved={'experiment': other} if other else None)


@harness('C19', quick=[dict(n=1, before=2), dict(n=2, before=1)], thorough=[dict(n=1, before=3), dict(n=2, before=2)], expect=['the reloaded filter agrees'])
def kalman_twin(ctx, n, before):
    """All options of the filter: dynamics, fading memory, noise."""
    opts = dict(state_transition_function=np.eye(n) * 2. + np.eye(n, k=1), process_noise=np.eye(n) * 3., measurement_covariance_matrix=np.array([[.5]]), alpha=1.25)
    chosen = {k: v for k, v in opts.items() if ctx.flag(k)}
    kal = KalmanGradient(n, 1, initial_gradient=np.array([ctx.real('g%d' % i) for i in range(n)], dtype=object if ctx.symbolic else float), **chosen)
    steps = [np.array([1. + k, 2. - k][:n]) for k in range(before + 2)]
    for k in range(before):
        kal.update(steps[k], [ctx.real('y%d' % k)], measurement_covariance=1. if ctx.flag('own variance %d' % k) else None)
    twin = reload(kal)
    for k in range(before, before + 2):
        y = ctx.real('y%d' % k)
        for f in (kal, twin):
            f.update(steps[k], [y])
        same_answer(ctx, 'the reloaded filter agrees', lambda: kal.grad, lambda: twin.grad)
        same_answer(ctx, 'the reloaded filter agrees', lambda: kal.cov, lambda: twin.cov)


def _observe_estimator(ctx, label, a, b, gates=None):
    same_answer(ctx, label, a.estimate, b.estimate)
    same_answer(ctx, label, a.covariance, b.covariance)
    same_answer(ctx, label, lambda: a.current_position, lambda: b.current_position)
    same_answer(ctx, label, lambda: a.require_measurement(gates), lambda: b.require_measurement(gates))


@harness('C19', quick=[dict(kind='fd', n=2, total=4), dict(kind='symmetric', n=2, total=5), dict(kind='kalman', n=1, total=3), dict(kind='self', n=1, total=4)],
         thorough=[dict(kind='fd', n=3, total=5), dict(kind='symmetric', n=2, total=6), dict(kind='kalman', n=1, total=4), dict(kind='self', n=1, total=5), dict(kind='self', n=2, total=5)],
         expect=['the reloaded estimator agrees'], max_paths=20000)
def estimator_twin(ctx, kind, n, total):
    """Reloaded after any number of measurements; later measurements, restarts and moves go to both."""
    gates = ['c', 'a', 'b'][:n]
    start = series(gates, [ctx.real('x_' + g) for g in gates])
    eps = series(gates, [.5 + .25 * i for i in range(n)])
    if kind in ('fd', 'symmetric'):
        est = FiniteDifferencesGradientEstimator(current_position=start, epsilon=eps, symmetric=kind == 'symmetric')
    elif kind == 'kalman':
        est = KalmanGradientEstimator(filt(n), start, maximum_covariance=series(gates, [1.] * n), epsilon=eps,
                                      current_value=ctx.real('v') if ctx.flag('value known') else None)
    else:
        est = SelfInitializingKalmanEstimator.from_scratch(start, eps, 1.) if ctx.flag('scratch') else SelfInitializingKalmanEstimator(
            FiniteDifferencesGradientEstimator(current_position=start, epsilon=eps), kalman_arguments=dict(maximum_covariance=2., epsilon=.75),
            kalman_gradient_args=dict(alpha=1.5, process_noise=np.eye(n)))
    when = ctx.choice('reload after', list(range(total)))
    both = [est]
    for k in range(total):
        if k == when:
            both.append(reload(est))
            _observe_estimator(ctx, 'the reloaded estimator agrees', *both)
        how = ctx.choice('op%d' % k, 
                         ['base'] if k == 0 and kind in ('fd', 'self') else      # the tuning starts with an evaluation at the start
                         ['requested'] + ['base'] * (kind in ('symmetric', 'kalman')) + ['restart'] * (k == total - 1))
        if how == 'restart':
            new = series(gates[::-1], [ctx.real('r_' + g) for g in gates])
            for e in both:
                e.restart(new)
        else:
            want = both[0].require_measurement() if how == 'requested' else None
            if len(both) > 1 and how == 'requested':
                same_answer(ctx, 'the reloaded estimator agrees', lambda: want, both[1].require_measurement)
            pos = want if want is not None else both[0].current_position.copy()
            value = ctx.real('y%d' % k)
            for e in both:
                e.update(pos.copy(), value, 2., is_new_position=how != 'base')
        if len(both) > 1:
            _observe_estimator(ctx, 'the reloaded estimator agrees', *both)


@harness('C19', quick=[dict(estimators='kalman', before=1), dict(estimators='fd', before=3), dict(estimators='self', before=2)],
         thorough=[dict(estimators='kalman', before=2), dict(estimators='fd', before=4), dict(estimators='self', before=4)], expect=['the reloaded solver agrees'])
def newton_twin(ctx, estimators, before):
    gates = ['b', 'a']
    pos = series(gates, [.25, -.5])
    target = make_target(desired=series(['p', 'q'], [ctx.real('d_p'), ctx.real('d_q')]), tolerance=series(['p', 'q'], [1., 1.]))

    def make(i):
        if estimators == 'fd':
            return FiniteDifferencesGradientEstimator(current_position=pos.copy(), epsilon=.5)
        if estimators == 'self':
            return SelfInitializingKalmanEstimator(FiniteDifferencesGradientEstimator(current_position=pos.copy(), epsilon=.5), kalman_arguments=dict(maximum_covariance=np.inf, epsilon=.5))
        grad = [[1., .5], [.25, 2.]][i]
        return KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=grad), pos.copy(), maximum_covariance=np.inf, epsilon=.5)
    solver = NewtonSolver(target, [make(0), make(1)], pos.copy())
    moves = [(0., 0.), (.5, 0.), (0., .5), (1., 1.), (2., -1.), (.25, .75)]

    def learn(solvers, k):
        p = series(gates, [pos[g] + m for g, m in zip(gates, moves[k])])
        # far apart, so that the gradients of finite differences are regular
        v = series(['q', 'p'], [ctx.real('q%d' % k) if k == before + 1 else [.2, .3, 1.1, 1.2, .5, .1][k], ctx.real('p%d' % k) if k >= before else [.1, 2.1, .4, .2, .9, .3][k]])
        for s in solvers:
            s.update_after_step(p.copy(), v.copy(), series(['q', 'p'], [1., 1.]))
    for k in range(before):
        learn([solver], k)
    twin = reload(solver)
    for k in range(before, before + 2):
        same_answer(ctx, 'the reloaded solver agrees', solver.suggest_next_position, twin.suggest_next_position)
        same_answer(ctx, 'the reloaded solver agrees', lambda: solver.current_position, lambda: twin.current_position)
        learn([solver, twin], k)
    same_answer(ctx, 'the reloaded solver agrees', solver.suggest_next_position, twin.suggest_next_position)
    new = series(['z', 'a'], [0., ctx.real('r_a')])
    for s in (solver, twin):
        s.restart(new)
    same_answer(ctx, 'the reloaded solver agrees', lambda: solver.current_position, lambda: twin.current_position)
    same_answer(ctx, 'the reloaded solver agrees', solver.suggest_next_position, twin.suggest_next_position)


@harness('C19', quick=[dict(after=2)], thorough=[dict(after=4)], expect=['the reloaded solver agrees'], max_paths=20000)
def nelder_mead_twin(ctx, after):
    """Reloaded in every state of the algorithm."""
    gates = ['b', 'a']
    target = make_target(desired=series(['v'], [0.]))
    cost = [1., 2., 3.]
    points = [(series(gates, [ctx.real('p%d%s' % (i, g)) for g in gates]), series(['v'], [cost[i]])) for i in range(3)]
    state = ctx.choice('state', ['built_up', 'start_iteration', 'reflect', 'expand', 'contract_outside', 'contract_inside', 'shrink', 'shrinking'])
    kw = {}
    if state == 'built_up':
        points = points[:ctx.choice('number', [1, 2])]
    if state in ('expand', 'contract_outside', 'contract_inside', 'shrink', 'shrinking'):
        kw['reflected_point'] = (points[0][0] + 1., series(['v'], [{'expand': .5, 'contract_outside': 2.5}.get(state, 4.)]))
    if state == 'shrinking':
        state, kw['shrunk_points'] = 'shrink', [(points[0][0] + .5, series(['v'], [1.5]))]
    if state == 'built_up':
        points = [(series(gates, [float(v) for v in xy]), p[1]) for p, xy in zip(points, [(0, 0), (1, 0)])]
    solver = NelderMeadSolver(target, points, series(gates, [1., 2.]), points[0][0], points[0][1], state=state, **kw)
    twin = reload(solver)
    for k in range(after):
        same_answer(ctx, 'the reloaded solver agrees', solver.suggest_next_position, twin.suggest_next_position)
        pos = solver.suggest_next_position()
        val = series(['v'], [ctx.real('y%d' % k)])
        for s in (solver, twin):
            s.update_after_step(pos.copy(), val.copy(), series(['v'], [1.]))
        same_answer(ctx, 'the reloaded solver agrees', solver.get_costs, twin.get_costs)
        for a, b in zip(solver.get_positions(), twin.get_positions()):
            same_answer(ctx, 'the reloaded solver agrees', lambda: a, lambda: b)
    same_answer(ctx, 'the reloaded solver agrees', solver.suggest_next_position, twin.suggest_next_position)


@harness('C19', expect=['the reloaded solver agrees'])
def forwarding_twin(ctx):
    gates = ['b', 'a']
    target = make_target(desired=series(['p', 'q', 'r'], [np.nan] * 3), rescaling_factor=series(['p', 'q', 'r'], [ctx.real('f'), 2., 1.]))
    ctx.require(ctx.real('f') > 0)
    solver = ForwardingSolver(target, series(['p', 'q'], ['a', 'b']), series(gates, [ctx.real('x_b'), ctx.real('x_a')]))
    when = ctx.choice('when', [0, 1])
    both = [solver]
    for k in range(3):
        if k == when:
            both.append(reload(solver))
        pos = series(['a', 'c', 'b'], [ctx.real('pos%d%s' % (k, g)) for g in 'acb'])
        names = ctx.choice('names%d' % k, [['q', 'p'], ['r', 'q']])
        val = series(names, [ctx.real('v%d%s' % (k, p)) for p in names])
        for s in both:
            s.update_after_step(pos.copy(), val.copy(), val * 0. + 1.)
        if len(both) > 1:
            same_answer(ctx, 'the reloaded solver agrees', lambda: solver.suggest_next_position(None), lambda: both[1].suggest_next_position(None))
            same_answer(ctx, 'the reloaded solver agrees', lambda: solver.current_position, lambda: both[1].current_position)


# -- the whole system ----------------------------------------------------------------------------------------------
class Script:
    """The answers of the device are numbered: the n-th evaluation of an uninterrupted run gets the n-th answer."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.table = {}

    def __call__(self, device, parameter):
        key = (parameter, device.count)
        if key not in self.table:
            self.table[key] = self.make(*key)
        return self.table[key]


class Scripted(FakeExperiment):
    def __init__(self, voltages, script):
        super().__init__(voltages)
        self.script, self.count, self.seen = script, 0, []

    def value(self, parameter):
        self.seen.append((parameter, dict(self.v)))
        return self.script(self, parameter)


class ScriptEvaluator(DeviceEvaluator):
    def to_hdf5(self):
        return super().to_hdf5()

    def evaluate(self):
        out = super().evaluate()
        self.experiment.count += 1
        return out


def _hierarchy(ctx, exp, volt, setup):
    gates = ['b', 'a']
    pos = series(gates, [volt[g] for g in gates])
    tuners = []
    if setup in ('dot', 'all'):
        t0 = make_target(minimum=series(['sig', 'pos'], [0., np.nan]), cost_threshold=series(['sig', 'pos'], [-2., np.nan]), rescaling_factor=series(['sig', 'pos'], [2., 1.]))
        tuners.append(SensingDotTuner([ScriptEvaluator(exp, parameters=('sig', 'pos'), name='cheap')], [ScriptEvaluator(exp, parameters=('pos',), name='expensive')], ['s'],
                                      solver=ForwardingSolver(t0, series(['pos'], ['s']), series(['s'], [volt['s']])), tuned_voltages=[series(list(volt), volt.values())]))
    t1 = make_target(desired=series(['p', 'q'], [0., 0.]), tolerance=series(['p', 'q'], [1., 1.]), rescaling_factor=series(['p', 'q'], [1., 2.]))
    if setup in ('steps', 'all', 'kalman'):
        ests = [KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=g, initial_covariance_matrix=np.eye(2) * (0. if setup == 'steps' else .01)), pos.copy(), maximum_covariance=np.inf, epsilon=.5) for g in ([1., 0.], [0., 1.])]
        tuners.append(SubsetTuner([ScriptEvaluator(exp, parameters=('q', 'p'), name='ev')], gates, maximal_step_size=1., maximal_step_number=2,
                                  solver=NewtonSolver(t1, ests, pos.copy())))
    elif setup == 'fd':
        symmetric = ctx.flag('symmetric')
        ests = [FiniteDifferencesGradientEstimator(current_position=pos.copy(), epsilon=.5, symmetric=symmetric) for i in range(2)]
        tuners.append(SubsetTuner([ScriptEvaluator(exp, parameters=('q', 'p'), name='ev')], gates, solver=NewtonSolver(t1, ests, pos.copy())))
    elif setup == 'nm':
        tuners.append(SubsetTuner([ScriptEvaluator(exp, parameters=('q', 'p'), name='ev')], gates,
                                  solver=NelderMeadSolver.from_scratch(t1, series(gates, [1., 2.]), pos.copy(), series(['p', 'q'], [10., 10.]))))
    return tuners


def _value(ctx, setup):
    """Values: tuned, off or failed for the groups, concrete so that the histories stay short."""
    def make(parameter, k):
        if parameter == 'sig':
            return {'good': 1., 'poor': -1., 'bad': -9., 'failed': np.nan}[ctx.choice('sig%d' % k, ['good', 'poor', 'bad'] if setup == 'all' else ['good', 'poor', 'bad', 'failed'])]
        if parameter == 'pos':
            return ctx.real('pos%d' % k)
        if parameter == 'p' and setup == 'steps':
            return ctx.maybe_nan('p%d' % k, -3, 3) if k else ctx.real('p0', -3, 3)
        if parameter == 'p' and setup == 'kalman':
            return {'tuned': .2, 'near': 1.5, 'far': 5.5, 'failed': np.nan}[ctx.choice('p%d' % k, ['tuned', 'near', 'far'] + (['failed'] if k else []))]
        if parameter == 'p' and setup == 'all':
            return {'tuned': .2, 'far': 3.5}[ctx.choice('p%d' % k, ['tuned', 'far'])]
        if parameter == 'q' and setup in ('fd', 'nm'):
            return [3., 2.5, 2.75, 4., 2., 6., 1.5, 5., 3.5, 7.][k % 10]
        if parameter == 'p':
            return [2., 3., 1.75, 4.5, 5., 1.25, 6., 2.25, 3.25, 1.5][k % 10]
        return 0. if setup == 'steps' else .25
    return make


@harness('C19', quick=[dict(setup='steps', before=3, after=4), dict(setup='kalman', before=4, after=4), dict(setup='dot', before=4, after=4), dict(setup='all', before=4, after=4),
                       dict(setup='fd', before=13, after=6), dict(setup='nm', before=16, after=6)],
         thorough=[dict(setup='steps', before=5, after=5), dict(setup='kalman', before=6, after=5), dict(setup='dot', before=7, after=6), dict(setup='all', before=7, after=5),
                   dict(setup='fd', before=20, after=9), dict(setup='nm', before=30, after=9)],
         expect=['the resumed tuning does the same'], max_paths=20000)
def resume(ctx, setup, before, after):
    """The process dies after any iteration, with or without the last file; a new one resumes from the last file."""
    volt = {g: ctx.real('start_' + g) if g in 'zs' and setup != 'kalman' else .5 for g in ('z', 'b', 'a', 's')}
    script = Script(ctx)
    script.make = _value(ctx, setup)
    exp = Scripted(volt, script)
    with scratch() as d:
        with stepping() as queues:
            auto = Autotuner(exp, _hierarchy(ctx, exp, volt, setup), hdf5_storage_path=os.path.join(d, 'library'))
            when = ctx.choice('interrupted after', list(range(1, before + 1)))
            lost = when > 1 and ctx.flag('the last file is lost')
            files, counts = [], []
            try:
                for k in range(when):
                    if auto.is_tuning_complete():
                        return
                    auto.iterate()
                    files.append(auto.last_save_file)
                    counts.append(exp.count)
                ctx.claim('every iteration has its own file', len(set(files)) == len(files))
                for q in queues:
                    q.join()
                path = files[-2] if lost else files[-1]
                other = Scripted(exp.v, script)          # the device keeps its voltages
                other.count = counts[-2] if lost else counts[-1]
                twin = load(path, reserved={'experiment': other})['autotuner']
                ctx.claim('the resumed tuning continues in the same library', True)
                if lost:
                    if not twin.is_tuning_complete():
                        twin.iterate()
                    del other.sets[:], other.seen[:]
                del exp.sets[:], exp.seen[:]
                for k in range(after):
                    ctx.claim('the resumed tuning does the same (state)', auto.is_tuning_complete() == twin.is_tuning_complete() and
                              auto.current_tuner_index == twin.current_tuner_index and auto.current_tuner_status == twin.current_tuner_status)
                    same_answer(ctx, 'the resumed tuning does the same', lambda: auto.voltages_to_set, lambda: twin.voltages_to_set)
                    if auto.is_tuning_complete() or twin.is_tuning_complete():
                        break
                    a, b = _answer(auto.iterate), _answer(twin.iterate)
                    ctx.claim('the resumed tuning does the same (failures)', a[0] == b[0])
                ctx.claim('the resumed tuning does the same (evaluations)', [e[0] for e in exp.seen] == [e[0] for e in other.seen] and len(exp.sets) == len(other.sets))
                for (_, x), (_, y) in zip(exp.seen, other.seen):
                    ctx.close_map('the resumed tuning evaluates at the same voltages', series(y, y.values()), x)
                for x, y in zip(exp.sets, other.sets):
                    ctx.close_map('the resumed tuning sets the same voltages', series(y, y.values()), x)
            finally:
                for q in queues:
                    q.close()
