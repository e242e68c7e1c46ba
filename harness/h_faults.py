"""Faults of the hardware: the interrupted iteration is repeated, and everything is as it would have been without."""
import numpy as np

from harness.common import series
from harness.h_persist import ScriptEvaluator, Script, Scripted, _hierarchy, _same, _value, _norm, same_answer
from harness.common import make_target
from qtune.autotuner import Autotuner
from qtune.evaluator import AveragingEvaluator
from qtune.gradient import FiniteDifferencesGradientEstimator, KalmanGradientEstimator
from qtune.kalman_gradient import KalmanGradient
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver
from symx.ctx import harness


class Fault(Exception):
    pass


class Faulty(Scripted):
    """Raises at the n-th operation (reading, setting, measuring a parameter); setting may have had its effect."""

    def __init__(self, voltages, script):
        super().__init__(voltages, script)
        self.ops, self.at, self.effect, self.hit = 0, None, 'none', 0

    def _operate(self):
        self.ops += 1
        if self.at is not None and self.ops == self.at:
            self.hit += 1
            return True
        return False

    def read_gate_voltages(self):
        if self._operate():
            raise Fault('reading')
        return super().read_gate_voltages()

    def set_gate_voltages(self, new):
        if not self._operate():
            return super().set_gate_voltages(new)
        if self.effect == 'all':
            super().set_gate_voltages(new)
        elif self.effect == 'some':
            super().set_gate_voltages(new.iloc[:1])
        if self.effect != 'none':
            self.sets.pop()                         # the repetition will count
        raise Fault('setting')

    def value(self, parameter):
        if self._operate():
            raise Fault('measuring')
        return super().value(parameter)


def _split(ctx, exp, volt, setup):
    """Groups with several evaluators, which may average."""
    gates = ['b', 'a']
    pos = series(gates, [volt[g] for g in gates])
    t1 = make_target(desired=series(['p', 'q'], [0., 0.]), tolerance=series(['p', 'q'], [1., 1.]))
    ests = [KalmanGradientEstimator(KalmanGradient(2, 1, initial_gradient=g, initial_covariance_matrix=np.eye(2) * (0. if setup == 'split' else .01)), pos.copy(), maximum_covariance=1e6, epsilon=.5)
            for g in ([1., 0. if setup == 'split' else .25], [0., 1.])]
    if setup == 'split fd':
        ests[0] = FiniteDifferencesGradientEstimator(current_position=pos.copy(), epsilon=.5)
    evs = [ScriptEvaluator(exp, parameters=('q',), name='first'), ScriptEvaluator(exp, parameters=('p',), name='second')]
    if setup == 'averaged':
        evs = [AveragingEvaluator(e, n_measurement_repetitions=2, name='av ' + e.name) for e in evs]
    out = [SubsetTuner(evs, gates, maximal_step_size=1., maximal_step_number=2, solver=NewtonSolver(t1, ests, pos.copy()))]
    if setup == 'two groups':
        t0 = make_target(minimum=series(['sig', 'pos'], [0., -1e6]), cost_threshold=series(['sig', 'pos'], [-2., -1e6]))
        out.insert(0, SensingDotTuner([ScriptEvaluator(exp, parameters=('sig',), name='cheap'), ScriptEvaluator(exp, parameters=('pos',), name='cheap too')],
                                      [ScriptEvaluator(exp, parameters=('pos',), name='expensive')], ['s'],
                                      solver=ForwardingSolver(t0, series(['pos'], ['s']), series(['s'], [volt['s']])),
                                      tuned_voltages=[series(list(volt), volt.values())]))
    return out


def _values(ctx, setup):
    if setup not in ('split', 'split fd', 'averaged', 'two groups'):
        return _value(ctx, setup)

    def make(parameter, k):
        if parameter == 'sig':
            return {'good': 1., 'poor': -1., 'bad': -9.}[ctx.choice('sig%d' % k, ['good', 'poor', 'bad'])] if k < 2 else 1.
        if parameter == 'pos':
            return ctx.real('pos%d' % k)
        if parameter == 'q':
            return .25 if setup == 'split' else 3. + .25 * (k * k % 7) if setup == 'split fd' else [.75, 2.5, -1.75, .5, 2., 6., 1.5, 5., 3.5, 7.][k % 10]
        if setup == 'split':
            return ctx.maybe_nan('p%d' % k, -3, 3) if k > 2 else ctx.real('p%d' % k, -3, 3)
        return [ctx.real('p%d' % k, -3, 3), .25, 2., 3., 1.75, 4.5, 5., 1.25, 6., .5, 3.25, 1.5][k % 12] if k else 1.5
    return make


SETUPS = dict(steps=5, kalman=5, dot=5, all=5, fd=12, nm=12)
SPLIT = {'split': 5, 'split fd': 9, 'averaged': 5, 'two groups': 6}


@harness('C37', quick=[dict(setup=s, steps=n) for s, n in list(SETUPS.items()) + list(SPLIT.items())],
         thorough=[dict(setup=s, steps=n + 3, faults=2) for s, n in list(SETUPS.items()) + list(SPLIT.items())],
         expect=['nothing differs after a fault'], max_paths=40000)
def continued(ctx, setup, steps, faults=1):
    """One of the operations of one of the iterations fails, and the iteration is repeated."""
    volt = {g: ctx.real('start_' + g) if g in 'zs' and setup in ('steps', 'dot') else .5 for g in ('z', 'b', 'a', 's')}
    script = Script(ctx)
    script.make = _values(ctx, setup)
    make = _split if setup in SPLIT else _hierarchy
    exp, other = Scripted(volt, script), Faulty(volt, script)
    one = make(ctx, exp, volt, setup)
    auto, twin = Autotuner(exp, one), Autotuner(other, make(ctx, other, volt, setup))
    when = ctx.choice('fault in iteration', list(range(steps)))
    for k in range(steps):
        if auto.is_tuning_complete():
            break
        auto.iterate()
        if k >= when and k < when + faults:
            other.at = other.ops + 1 + ctx.choice('at operation%d' % (k - when), list(range(6 if setup == 'averaged' else 4)))
            other.effect = ctx.choice('effect%d' % (k - when), ['none', 'some', 'all']) if twin.voltages_to_set is not None else 'none'
            count = other.count
            seen = len(other.seen)
            try:
                twin.iterate()
                fault = False
            except Fault:
                fault = True
            ctx.claim('a fault is reported', fault == bool(other.hit))
            other.at, other.hit = None, 0
            if not fault:
                if k == when:
                    return                                     # there are fewer operations in this iteration
            else:
                other.count = count
                del other.seen[seen:]
                twin.iterate()
        else:
            twin.iterate()
        ctx.claim('nothing differs after a fault (state)', auto.is_tuning_complete() == twin.is_tuning_complete() and
                  auto.current_tuner_index == twin.current_tuner_index and auto.current_tuner_status == twin.current_tuner_status)
        same_answer(ctx, 'nothing differs after a fault', lambda: auto.voltages_to_set, lambda: twin.voltages_to_set)
        if k in (when, steps - 1) or auto.is_tuning_complete():
            for a, b in zip(auto.tuning_hierarchy, twin.tuning_hierarchy):
                _same(ctx, 'nothing differs after a fault', _norm(b.to_hdf5()), _norm(a.to_hdf5()), exp, other)
    ctx.claim('nothing differs after a fault (evaluations)', [e[0] for e in exp.seen] == [e[0] for e in other.seen] and len(exp.sets) == len(other.sets))
    for (_, x), (_, y) in zip(exp.seen, other.seen):
        ctx.close_map('the evaluations are made at the same voltages', series(y, y.values()), x)
    for x, y in zip(exp.sets, other.sets):
        ctx.close_map('the same voltages are set', series(y, y.values()), x)
