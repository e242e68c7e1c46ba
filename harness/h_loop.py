"""The whole loop: real Autotuner, tuners, Newton solvers, estimators and simulated experiment on affine devices."""
import numpy as np
import pandas as pd

from harness.common import dot, make_target, series, snapshot
from qtune.autotuner import Autotuner
from qtune.basic_dqd import Simulator, TestExperiment
from qtune.evaluator import Evaluator
from qtune.experiment import Measurement
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator, SelfInitializingKalmanEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver
from symx.ctx import harness


class Reading(Evaluator):
    """Hands on what the experiment measures."""

    def evaluate(self):
        data = self.experiment.measure(self.measurements[0])
        return series(self.parameters, data), series(self.parameters, [self.experiment.variance] * len(data))

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return super().to_hdf5()


class Device:
    """parameters = offset + J . voltages, one measurement per group of parameters; logs what is set and read."""

    def __init__(self, ctx, groups, gates, jacobian, start, spare=()):
        self.ctx, self.groups, self.gates, self.j = ctx, groups, gates, jacobian
        self.offset = {p: ctx.real('offset_' + p) for group in groups for p in group}
        self.measured = []
        self.truth = dict(start, **{g: 0.25 for g in spare})
        labels = list(self.truth)[::-1]
        measurements = [Measurement('m%d' % i) for i in range(len(groups))]
        sims = {id(m): Simulator(self.simulate, group=group) for m, group in zip(measurements, groups)}
        self.exp = TestExperiment(series(labels, [self.truth[g] for g in labels]), tuple(measurements), sims)
        self.exp.variance = 1.
        self.evaluators = [Reading(self.exp, (m,), tuple(group), None, None, 'reading') for m, group in zip(measurements, groups)]

    def value(self, p, v):
        return self.offset[p] + dot([self.j[p][g] for g in self.gates], [v[g] for g in self.gates])

    def simulate(self, gate_voltages, measurement, options):
        self.measured.append(options['group'])
        return [self.value(p, gate_voltages) for p in options['group']]


def run(ctx, dev, auto, limit):
    """Iterates until complete; follows the voltages that should be set."""
    n = 0
    while not auto.is_tuning_complete():
        if n == limit:
            break
        before = auto.voltages_to_set
        ok, _ = ctx.completes('every iteration succeeds', auto.iterate)
        if not ok:
            return None
        n += 1
        if before is not None:
            for g in before.index:
                dev.truth[g] = before[g]
        ctx.close_map('the experiment has exactly the voltages that were set', dev.exp.read_gate_voltages(), dev.truth)
    return n


def finished(ctx, dev, auto, desired, tol, spare=()):
    """Complete, on target, and nothing else moved."""
    ctx.claim('the tuning becomes complete', auto.is_tuning_complete())
    v = snapshot(dev.exp.read_gate_voltages())
    for p, want in desired.items():
        d = dev.value(p, v) - want
        slack = 0. if ctx.symbolic else 1e-6
        ctx.claim('all parameters are on target', ctx.And(d < tol[p] + slack, d > -tol[p] - slack))
    for g in spare:
        ctx.close('gates that tune nothing stay', v[g], 0.25)


def known(jac, gates, start):
    """A Kalman estimator that knows the gradient."""
    labels = list(gates)
    n = len(labels)
    kal = KalmanGradient(n, 1, initial_gradient=np.array([jac[g] for g in labels]), initial_covariance_matrix=np.zeros((n, n)))
    return KalmanGradientEstimator(kal, series(labels, [start[g] for g in labels]), maximum_covariance=np.inf, epsilon=1.)


def tuner(evaluators, params, gates, estimators, start, desired, tol, **kw):
    target = make_target(desired=series(params, [desired.get(p, np.nan) for p in params]),
                         tolerance=series(params, [tol[p] if p in desired else np.nan for p in params]))
    solver = NewtonSolver(target, estimators, series(gates, [start[g] for g in gates]))
    return SubsetTuner(evaluators, list(gates), solver=solver, **kw)


def regular(ctx, jac, params, gates, at_least=0.25):
    if len(params) == 1:
        d = jac[params[0]][gates[0]]
    else:
        (a, b), (c, e) = ([jac[p][g] for g in gates] for p in params)
        d = a * e - b * c
    ctx.require(ctx.Or(d > at_least, d < -at_least))


@harness('C28', quick=[dict(m=1), dict(m=2, concrete=True)], thorough=[dict(m=1), dict(m=2, concrete=True), dict(m=2)],
         expect=['the tuning becomes complete', 'all parameters are on target', 'the number of iterations'])
def one_group(ctx, m, concrete=False):
    """Known gradient: one step reaches every target from everywhere."""
    params, gates = ['p%d' % i for i in range(m)], ['g%d' % i for i in range(m)]
    if concrete:
        jac = {'p0': dict(g0=1.5, g1=-0.25), 'p1': dict(g0=0.5, g1=0.75)}
    else:
        jac = {p: {g: ctx.real('d%s_%s' % (p, g)) for g in gates} for p in params}
        regular(ctx, jac, params, gates)
    start = {g: ctx.real('start_' + g) for g in gates}
    desired = {p: ctx.real('desired_' + p) for p in params}
    tol = {p: 0.125 for p in params}
    dev = Device(ctx, [params], gates, jac, start, spare=('z',))
    t = tuner(dev.evaluators, params, gates[::-1], [known(jac[p], gates, start) for p in params], start, desired, tol)
    auto = Autotuner(dev.exp, [t])
    v0 = dict(dev.truth)
    on_target = bool(ctx.And(*[ctx.And(ctx.lt(dev.value(p, v0) - desired[p], tol[p]), ctx.gt(dev.value(p, v0) - desired[p], -tol[p]))
                               for p in params]))
    n = run(ctx, dev, auto, limit=6)
    if n is None:
        return
    ctx.claim('the number of iterations', n == (1 if on_target else 4))
    finished(ctx, dev, auto, desired, tol, ('z',))
    if not on_target:
        for p in params:
            ctx.close('the last step meets the target exactly', dev.value(p, dev.truth), desired[p], scale=1e3)


def near(ctx, dev, p, v, desired, tol):
    d = dev.value(p, v) - desired[p]
    return bool(ctx.And(ctx.lt(d, tol[p]), ctx.gt(d, -tol[p])))


@harness('C28', quick=[dict(kind='keep'), dict(kind='triangular')],
         thorough=[dict(kind='keep'), dict(kind='triangular'), dict(kind='keep', symbolic=True)],
         expect=['the tuning becomes complete', 'all parameters are on target', 'the number of iterations'])
def two_groups(ctx, kind, symbolic=False):
    """A hierarchy of two groups: the upper group leaves the lower one on its target."""
    gates = ['g0', 'g1']
    if symbolic:
        jac = {p: {g: ctx.real('d%s_%s' % (p, g)) for g in gates} for p in ('p0', 'p1')}
        regular(ctx, jac, ['p0', 'p1'], gates)
        ctx.require(ctx.Or(jac['p0']['g0'] > 0.25, jac['p0']['g0'] < -0.25))
    elif kind == 'keep':
        jac = {'p0': dict(g0=1.5, g1=-0.25), 'p1': dict(g0=0.5, g1=0.75)}
    else:
        jac = {'p0': dict(g0=1.5, g1=0.), 'p1': dict(g0=0.5, g1=0.75)}
    start = {g: ctx.real('start_' + g) for g in gates}
    desired = {p: ctx.real('desired_' + p) for p in ('p0', 'p1')}
    tol = dict(p0=0.125, p1=0.25)
    dev = Device(ctx, [['p0'], ['p1']], gates, jac, start, spare=('z',))
    ev0, ev1 = dev.evaluators
    lower = tuner([ev0], ['p0'], ['g0'], [known(jac['p0'], ['g0'], start)], start, desired, tol)
    if kind == 'keep':
        upper = tuner([ev1], ['p1', 'p0'], gates[::-1], [known(jac['p1'], gates, start), known(jac['p0'], gates[::-1], start)],
                      start, {'p1': desired['p1']}, tol)
    else:
        upper = tuner([ev1], ['p1'], ['g1'], [known(jac['p1'], ['g1'], start)], start, desired, tol)
    auto = Autotuner(dev.exp, [lower, upper])
    v = dict(dev.truth)
    on0 = near(ctx, dev, 'p0', v, desired, tol)
    if not on0:
        v['g0'] = v['g0'] + (desired['p0'] - dev.value('p0', v)) / jac['p0']['g0']
    on1 = near(ctx, dev, 'p1', v, desired, tol)
    p0_before = dev.value('p0', v)
    n = run(ctx, dev, auto, limit=12)
    if n is None:
        return
    ctx.claim('the number of iterations', n == (0 if on0 else 3) + 2 + (0 if on1 else 4))
    finished(ctx, dev, auto, desired, tol, ('z',))
    ctx.close('the upper group leaves the lower parameter where it is', dev.value('p0', dev.truth), p0_before, scale=1e3)
    want = (['p0'] if on0 else ['p0', 'p0']) + (['p1'] if on1 else ['p1', 'p0', 'p1'])
    ctx.claim('only the groups that need it are measured', [x[0] for x in dev.measured] == want)


@harness('C28', quick=[dict(m=1, k=1), dict(m=1, k=1, symmetric=True), dict(m=1, k=2), dict(m=1, k=1, kalman=True)],
         thorough=[dict(m=1, k=1), dict(m=1, k=1, symmetric=True), dict(m=1, k=2), dict(m=1, k=1, kalman=True), dict(m=2, k=2)],
         expect=['the tuning becomes complete', 'all parameters are on target', 'the number of iterations'])
def unknown_gradient(ctx, m, k, symmetric=False, kalman=False):
    """The gradient is measured by finite differences first."""
    params, gates = ['p%d' % i for i in range(m)], ['g%d' % i for i in range(k)]
    if k == 1:
        jac = {'p0': {'g0': ctx.real('dp0_g0')}}
        regular(ctx, jac, params, gates)
    elif m == 1:
        jac = {'p0': {g: ctx.real('dp0_' + g) for g in gates}}
        ctx.require(ctx.Or(jac['p0']['g0'] > 0.25, jac['p0']['g0'] < -0.25))
    else:
        jac = {'p0': dict(g0=1.5, g1=-0.25), 'p1': dict(g0=0.5, g1=0.75)}
    start = {g: ctx.real('start_' + g) for g in gates}
    desired = {p: ctx.real('desired_' + p) for p in params}
    tol = {p: 0.125 for p in params}
    dev = Device(ctx, [params], gates, jac, start, spare=('z',))
    eps = {g: 0.5 + i for i, g in enumerate(gates)}
    ests = []
    for p in params:
        e = FiniteDifferencesGradientEstimator(current_position=series(gates, [start[g] for g in gates]),
                                               epsilon=series(gates, [eps[g] for g in gates]), symmetric=symmetric)
        if kalman:
            e = SelfInitializingKalmanEstimator(e, kalman_arguments=dict(maximum_covariance=np.inf, epsilon=1.))
        ests.append(e)
    t = tuner(dev.evaluators, params, gates, ests, start, desired, tol)
    auto = Autotuner(dev.exp, [t])
    points = 2 * k if symmetric else k
    n = run(ctx, dev, auto, limit=3 * points + 8)
    if n is None:
        return
    ctx.claim('the number of iterations', n <= 3 * points + 4)
    finished(ctx, dev, auto, desired, tol, ('z',))
    if n == 3 * points + 4:
        for p in params:
            ctx.close('the last step meets the target exactly', dev.value(p, dev.truth), desired[p], scale=1e3)


@harness('C28', quick=[dict(steps=3, queued=1), dict(steps=3, queued=2)], thorough=[dict(steps=5, queued=1), dict(steps=5, queued=3)],
         expect=['the tuning becomes complete', 'no step is larger than allowed'])
def limited_steps(ctx, steps, queued):
    """A target several steps away."""
    jac = {'p0': {'g0': ctx.real('dp0_g0')}}
    regular(ctx, jac, ['p0'], ['g0'])
    start, desired, tol, size = {'g0': ctx.real('start_g0')}, {'p0': ctx.real('desired_p0')}, dict(p0=0.125), 2.
    dev = Device(ctx, [['p0']], ['g0'], jac, start)
    t = tuner(dev.evaluators, ['p0'], ['g0'], [known(jac['p0'], ['g0'], start)], start, desired, tol,
              maximal_step_size=size, maximal_step_number=queued)
    auto = Autotuner(dev.exp, [t])
    far = desired['p0'] - dev.value('p0', dev.truth)
    need = jac['p0']['g0'] * size * steps
    ctx.require(ctx.Or(ctx.And(far <= need, far >= -need), ctx.And(far <= -need, far >= need)))
    n = 0
    while not auto.is_tuning_complete() and n < 3 * steps + 4:
        before, old = auto.voltages_to_set, dict(dev.truth)
        ok, _ = ctx.completes('every iteration succeeds', auto.iterate)
        if not ok:
            return
        n += 1
        if before is not None:
            dev.truth['g0'] = before['g0']
            d = before['g0'] - old['g0']
            slack = 0. if ctx.symbolic else 1e-6
            ctx.claim('no step is larger than allowed', ctx.And(d <= size + slack, d >= -size - slack))
    ctx.claim('the number of iterations', n <= 3 * steps + 1)
    finished(ctx, dev, auto, desired, tol)


@harness('C28', quick=[dict(what='restart'), dict(what='targets'), dict(what='fault')],
         expect=['the tuning becomes complete', 'all parameters are on target', 'the number of iterations'])
def disturbed(ctx, what):
    """A manual change with restart, new targets, or an evaluation that fails once: the loop still converges."""
    jac = {'p0': {'g0': ctx.real('dp0_g0')}}
    regular(ctx, jac, ['p0'], ['g0'])
    start, desired, tol = {'g0': ctx.real('start_g0')}, {'p0': ctx.real('desired_p0')}, dict(p0=0.125)
    dev = Device(ctx, [['p0']], ['g0'], jac, start, spare=('z',))
    t = tuner(dev.evaluators, ['p0'], ['g0'], [known(jac['p0'], ['g0'], start)], start, desired, tol)
    auto = Autotuner(dev.exp, [t])
    if what == 'fault':
        real, count = dev.simulate, [0]

        def simulate(*args):
            count[0] += 1
            return [np.nan] if count[0] == 2 else real(*args)
        dev.simulate = simulate
        dev.exp.simulator_dict.update({k: Simulator(simulate, group=['p0']) for k in dev.exp.simulator_dict})
        first = near(ctx, dev, 'p0', dev.truth, desired, tol)
        n = run(ctx, dev, auto, limit=12)
        if n is None:
            return
        if first:
            ctx.claim('the number of iterations', n == 1)
        else:
            # after the failure the voltages return half way, and the next step starts from there
            half = dev.value('p0', start) - desired['p0']
            hit = bool(ctx.And(ctx.lt(half, 2 * tol['p0']), ctx.gt(half, -2 * tol['p0'])))
            ctx.claim('the number of iterations', n == (7 if hit else 10))
        finished(ctx, dev, auto, desired, tol, ('z',))
        return
    done = 0
    for _ in range(ctx.choice('interrupted after', [0, 1, 2, 3, 4])):
        if auto.is_tuning_complete():
            break
        before = auto.voltages_to_set
        auto.iterate()
        done += 1
        if before is not None:
            dev.truth['g0'] = before['g0']
    if what == 'restart':
        dev.truth['g0'] = ctx.real('manual')
        dev.exp.set_gate_voltages(series(['g0'], [dev.truth['g0']]))
        auto.restart()
    else:
        desired['p0'] = ctx.real('new desired_p0')
        auto.change_targets([{'desired': series(['p0'], [desired['p0']])}])
    on_target = near(ctx, dev, 'p0', dev.truth, desired, tol)
    n = run(ctx, dev, auto, limit=6)
    if n is None:
        return
    ctx.claim('the number of iterations', n == (1 if on_target else 4))
    finished(ctx, dev, auto, desired, tol, ('z',))


@harness('C28', quick=[dict()], expect=['the tuning becomes complete', 'all parameters are on target', 'the number of iterations',
                                        'the sensing dot is on its optimum'])
def with_sensing_dot(ctx):
    """A sensing dot below a parameter whose gate detunes it: near the optimum the cheap scan suffices, far away it does not."""
    jac = {'p0': {'g0': ctx.real('dp0_g0')}}
    regular(ctx, jac, ['p0'], ['g0'])
    start, desired, tol = {'g0': ctx.real('start_g0')}, {'p0': ctx.real('desired_p0')}, dict(p0=0.125)
    dev = Device(ctx, [['p0']], ['g0'], jac, start)
    ev = dev.evaluators[0]
    shift, coupling, junk = ctx.real('optimum'), ctx.real('coupling'), ctx.real('junk')
    dev.truth['SDB2'] = ctx.real('start_SDB2')
    cheap, dear = Measurement('line'), Measurement('plane')
    scans = []

    def optimum(v):
        return shift + coupling * v['g0']

    def state(v):
        d = v['SDB2'] - optimum(v)
        if bool(ctx.And(ctx.lt(d, 0.25), ctx.gt(d, -0.25))):
            return 'on'
        return 'near' if bool(ctx.And(ctx.lt(d, 1.), ctx.gt(d, -1.))) else 'far'

    def scan(v, measurement, options):
        scans.append(measurement.name)
        if measurement is dear:
            return [optimum(v)]
        s = state(v)
        return [dict(on=3., near=2., far=1.)[s], junk if s == 'far' else optimum(v)]
    old = dict(dev.exp.simulator_dict)
    dev.exp = TestExperiment(series(['g0', 'SDB2'], [dev.truth['g0'], dev.truth['SDB2']]), (ev.measurements[0], cheap, dear),
                             {**old, id(cheap): Simulator(scan), id(dear): Simulator(scan)})
    dev.exp.variance = 1.
    ev = Reading(dev.exp, ev.measurements, ('p0',), None, None, 'reading')
    target = make_target(minimum=series(['signal', 'position'], [2.5, np.nan]), cost_threshold=series(['signal', 'position'], [1.5, np.nan]))
    dot_tuner = SensingDotTuner([Reading(dev.exp, (cheap,), ('signal', 'position'), None, None, 'cheap')],
                                [Reading(dev.exp, (dear,), ('position',), None, None, 'expensive')], ['SDB2'],
                                solver=ForwardingSolver(target, series(['position'], ['SDB2']), series(['SDB2'], [dev.truth['SDB2']])))
    upper = tuner([ev], ['p0'], ['g0'], [known(jac['p0'], ['g0'], start)], start, desired, tol)
    auto = Autotuner(dev.exp, [dot_tuner, upper])
    v, moves, want = dict(dev.truth), 0, []
    for step in range(2):
        s = state(v)
        want += ['line', 'plane'] if s == 'far' else ['line']
        if s != 'on':
            moves += 1
            v['SDB2'] = optimum(v)
            want.append('line')
        if near(ctx, dev, 'p0', v, desired, tol):
            break
        moves += 1
        v['g0'] = v['g0'] + (desired['p0'] - dev.value('p0', v)) / jac['p0']['g0']
    n = run(ctx, dev, auto, limit=20)
    if n is None:
        return
    ctx.claim('exactly the necessary scans are made', scans == want)
    ctx.claim('the number of iterations', n == 2 * moves + len([s for s in scans if s == 'line']) + len(dev.measured))
    finished(ctx, dev, auto, desired, tol)
    d = dev.truth['SDB2'] - optimum(dev.truth)
    slack = 0. if ctx.symbolic else 1e-6
    ctx.claim('the sensing dot is on its optimum', ctx.And(d < 0.25 + slack, d > -0.25 - slack))
    ctx.close_map('the voltages are those of the optimal path', dev.exp.read_gate_voltages(), v)
