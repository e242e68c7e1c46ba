"""Autotuner: the hierarchy as a state machine, driven through every history of a bounded length."""
import numpy as np
import pandas as pd

from harness.common import (FakeExperiment, StubEstimator, StubEvaluator, StubSolver, StubTuner, make_target, series,
                            snapshot, total)
from qtune.autotuner import Autotuner
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver
from symx.ctx import harness, isnan


class Fault(Exception):
    pass


class Rig:
    """An Autotuner with n stub tuners whose verdicts are symbolic flags and whose proposals are symbolic voltages."""

    def __init__(self, ctx, n, faults=False, gates=('a', 'b'), partial=False, shared=True):
        self.ctx, self.n, self.faults = ctx, n, faults
        self.log = []
        self.exp = FakeExperiment({g: ctx.real('start_' + g) for g in gates + ('z',)}, self.log)
        self.count = dict(verdict=0, propose=0, set=0)
        self.armed = None
        self.tuners = []
        for i in range(n):
            t = make_target(desired=series(['p%d' % i], [0.]), tolerance=series(['p%d' % i], [1.]))
            own = gates if shared else [gates[i % len(gates)]]
            self.tuners.append(StubTuner('t%d' % i, t, self.log, self._verdict, self._propose, own))
        self.gates, self.partial, self.shared = gates, partial, shared
        real_set = self.exp.set_gate_voltages

        def set_gate_voltages(new):
            if self._fails():
                raise Fault('set')
            return real_set(new)
        self.exp.set_gate_voltages = set_gate_voltages
        self.auto = Autotuner(self.exp, self.tuners)

    def _fails(self):
        armed, self.armed = self.armed, None
        return bool(armed)

    def _verdict(self, tuner):
        if self._fails():
            raise Fault('evaluation')
        self.count['verdict'] += 1
        return self.ctx.flag('tuned%d' % self.count['verdict'])

    def _propose(self, tuner):
        if self._fails():
            raise Fault('solver')
        self.count['propose'] += 1
        k = self.count['propose']
        gates = self.gates[:1] if self.partial and k % 2 else self.gates[::-1]
        if not self.shared and k % 2:           # a group moves nothing but its own gates
            gates = list(tuner.solver.current_position.index)
        return series(gates, [self.ctx.real('next%d_%s' % (k, g)) for g in gates])


@harness('C01', quick=[dict(n=1, steps=4), dict(n=2, steps=6), dict(n=3, steps=5)],
         thorough=[dict(n=1, steps=6), dict(n=2, steps=8), dict(n=3, steps=8)],
         expect=['complete exactly when every group was verified since the last change', 'a complete tuning cannot be iterated'],
         max_paths=30000)
def completion(ctx, n, steps):
    """Histories of iterate, restart and change_targets; complete only after consecutive verification of all groups."""
    rig = Rig(ctx, n, shared=False)
    auto, log = rig.auto, rig.log
    verified = 0
    disturbances = 0
    for k in range(steps):
        complete = auto.is_tuning_complete()
        ctx.claim('complete exactly when every group was verified since the last change', complete == (verified == n))
        op = 'iterate'
        if disturbances < 2:
            op = ctx.choice('op%d' % k, ['iterate', 'restart', 'change_targets'])
        mark = len(log)
        if op == 'restart':
            rig.exp.v['a'] = ctx.real('manual%d' % k)
            auto.restart()
            ctx.claim('restart reaches every group', [e[1] for e in log[mark:] if e[0] == 'restart'] == [t.name for t in rig.tuners])
            ctx.claim('restart evaluates and sets nothing', all(e[0] == 'restart' for e in log[mark:]))
            verified = 0
            disturbances += 1
            continue
        if op == 'change_targets':
            auto.change_targets([{'desired': series(['p0'], [ctx.real('target%d' % k)])}])
            ctx.claim('changing the targets evaluates and sets nothing', len(log) == mark)
            verified = 0
            disturbances += 1
            continue
        if complete:
            ctx.raises('a complete tuning cannot be iterated', RuntimeError, auto.iterate)
            ctx.claim('iterating a complete tuning has no effect', len(log) == mark and auto.is_tuning_complete())
            continue
        auto.iterate()
        new = log[mark:]
        ctx.claim('one iteration does exactly one thing', len(new) == 1)
        kind = new[0][0]
        if kind == 'is_tuned':
            ctx.claim('the groups are verified in the order of the hierarchy', new[0][1] == 't%d' % verified)
            ctx.claim('the evaluation happens at the voltages of the experiment (gates)', set(new[0][2]) == set(rig.exp.v))
            for g in rig.exp.v:
                ctx.close('the evaluation happens at the voltages of the experiment', new[0][2][g], rig.exp.v[g])
            verified = verified + 1 if new[0][3] else verified
        elif kind == 'set':
            verified = 0
    ctx.claim('complete exactly when every group was verified since the last change', auto.is_tuning_complete() == (verified == n))


@harness('C01', quick=[dict(n=2, steps=5)], thorough=[dict(n=1, steps=6), dict(n=2, steps=7), dict(n=3, steps=7)],
         expect=['complete exactly when every group was verified since the last change', 'a failed iteration can be repeated'],
         max_paths=30000)
def completion_with_faults(ctx, n, steps):
    """An evaluation, a solver or the hardware raises during one of the iterations; the iteration is then repeated."""
    rig = Rig(ctx, n)
    auto, log = rig.auto, rig.log
    when = ctx.choice('fault', list(range(steps)))
    phase = ('evaluate', 0)
    verified = 0
    for k in range(steps):
        if auto.is_tuning_complete():
            break
        mark = len(log)
        if k == when:
            rig.armed = True
            ctx.raises('the failure is reported', Fault, auto.iterate)
            ctx.claim('a failed iteration has no effect', len(log) == mark)
        else:
            auto.iterate()
            new = log[mark:]
            ctx.claim('one iteration does exactly one thing', len(new) == 1)
            ctx.claim('a failed iteration can be repeated', new[0][0] == {'evaluate': 'is_tuned', 'solve': 'next', 'set': 'set'}[phase[0]] and
                      (phase[0] == 'set' or new[0][1] == 't%d' % verified))
            if new[0][0] == 'is_tuned':
                if new[0][3]:
                    verified += 1
                else:
                    phase = ('solve',)
            elif new[0][0] == 'next':
                phase = ('set', new[0][3])
            else:
                ctx.claim('the failed voltages are set (gates)', set(new[0][1]) == set(phase[1]))
                for g in phase[1]:
                    ctx.close('the failed voltages are set', new[0][1].get(g, np.nan), phase[1][g])
                verified, phase = 0, ('evaluate',)
        ctx.claim('complete exactly when every group was verified since the last change', auto.is_tuning_complete() == (verified == n))


@harness('C01', quick=[dict(n=3, steps=4), dict(n=4, steps=3)], thorough=[dict(n=3, steps=7), dict(n=4, steps=6), dict(n=5, steps=6)],
         expect=['complete exactly when every group was verified since the last change', 'the groups are verified in the order of the hierarchy',
                 'the plan is set completely'], max_paths=30000)
def completion_from_any_state(ctx, n, steps):
    """The Autotuner continues from every state between two iterations, as after loading a file."""
    rig = Rig(ctx, n, shared=False)
    log = rig.log
    verified = ctx.choice('index', list(range(n)))
    phase = ctx.choice('phase', ['evaluate', 'solve', 'set'])
    plan = {g: ctx.real('plan_' + g) for g in ('a', 'z')} if phase == 'set' else None
    auto = rig.auto = Autotuner(rig.exp, rig.tuners, current_tuner_index=verified, current_tuner_status=phase == 'solve',
                                voltage_to_set=None if plan is None else series(plan, plan.values()))
    for k in range(steps):
        ctx.claim('complete exactly when every group was verified since the last change', auto.is_tuning_complete() == (verified == n))
        if verified == n:
            ctx.raises('a complete tuning cannot be iterated', RuntimeError, auto.iterate)
            return
        if k == 1 and ctx.flag('disturb'):
            if ctx.flag('restart'):
                auto.restart()
            else:
                auto.change_targets([{} for _ in range(n)])
            verified, phase = 0, 'evaluate'
        mark = len(log)
        auto.iterate()
        new = log[mark:]
        ctx.claim('one iteration does exactly one thing', len(new) == 1 and new[0][0] == {'evaluate': 'is_tuned', 'solve': 'next', 'set': 'set'}[phase])
        if phase == 'set':
            ctx.claim('the plan is set completely', set(new[0][1]) == set(plan))
            for g in plan:
                ctx.close('the plan is set completely', new[0][1].get(g, np.nan), plan[g])
            verified, phase = 0, 'evaluate'
            continue
        ctx.claim('the groups are verified in the order of the hierarchy', new[0][1] == 't%d' % verified)
        if phase == 'solve':
            plan, phase = new[0][3], 'set'
        elif new[0][3]:
            verified += 1
        else:
            phase = 'solve'
    ctx.claim('complete exactly when every group was verified since the last change', auto.is_tuning_complete() == (verified == n))


@harness('C01', quick=[dict(steps=6)], thorough=[dict(steps=9)], expect=['complete means all parameters are on target'], max_paths=20000)
def complete_means_tuned(ctx, steps):
    """Real SubsetTuners over a device with arbitrary affine responses and a solver that proposes anything."""
    gates = ['a', 'b']
    exp = FakeExperiment({g: ctx.real('start_' + g) for g in ('b', 'a')})
    coef = {p: {g: ctx.real('d%s_%s' % (p, g)) for g in gates} for p in ('p', 'q')}
    off = {p: ctx.real('offset_' + p) for p in ('p', 'q')}

    def response(p):
        return off[p] + total([coef[p][g] * exp.v[g] for g in gates])
    desired = {p: ctx.real('desired_' + p) for p in ('p', 'q')}
    tol = {p: ctx.real('tol_' + p) for p in ('p', 'q')}
    n = dict(k=0)

    def suggestion():
        n['k'] += 1
        return series(gates, [ctx.real('s%d_%s' % (n['k'], g)) for g in gates])
    tuners = []
    extra = ctx.choice('another parameter', [None, 'without tolerance', 'without target'])
    for p in ('p', 'q'):
        target = make_target(desired=series([p], [desired[p]]), tolerance=series([p], [tol[p]]))
        ev = StubEvaluator([p], lambda p=p: (series([p], [response(p)]), series([p], [1.])))
        if extra and p == 'q':
            target = make_target(desired=series(['q', 'r'], [desired[p], 5. if extra == 'without tolerance' else np.nan]),
                                 tolerance=series(['q', 'r'], [tol[p], 1. if extra == 'without target' else np.nan]))
            ev = StubEvaluator(['r', 'q'], lambda: (series(['r', 'q'], [1., response('q')]), series(['r', 'q'], [1., 1.])))
        tuners.append(SubsetTuner([ev], gates, solver=StubSolver(target, series(gates, [exp.v[g] for g in gates]), suggestion)))
    auto = Autotuner(exp, tuners)
    change = ctx.choice('change_at', [None] + list(range(1, steps)))
    for k in range(steps):
        if k == change:
            desired['p'] = ctx.real('new_desired_p')
            auto.change_targets([{'desired': series(['p'], [desired['p']])}])
        if auto.is_tuning_complete():
            continue
        auto.iterate()
        if auto.is_tuning_complete():
            for p in ('p', 'q'):
                ctx.claim('complete means all parameters are on target', ctx.lt(abs(response(p) - desired[p]), tol[p]))


# ---- C02 ---------------------------------------------------------------------------------------------------------
@harness('C02', quick=[dict(n=1, steps=6), dict(n=2, steps=6)], thorough=[dict(n=1, steps=9), dict(n=2, steps=9), dict(n=3, steps=8)],
         expect=['exactly the planned voltages are set', 'every plan is carried out in the next iteration'], max_paths=30000)
def planned_voltages(ctx, n, steps):
    rig = Rig(ctx, n, partial=True)
    auto, log = rig.auto, rig.log
    hardware = dict(rig.exp.v)
    plan = None
    disturb = ctx.choice('disturb_at', [None] + list(range(2, steps)))
    how = ctx.choice('disturb', ['restart', 'change_targets'])
    for k in range(steps):
        if k == disturb:
            if how == 'restart':
                hardware['a'] = rig.exp.v['a'] = ctx.real('manual')
                auto.restart()
                for e in log:
                    if e[0] == 'restart':
                        for g in hardware:
                            ctx.close('restart hands out the voltages of the experiment', e[2].get(g, np.nan), hardware[g])
            else:
                auto.change_targets([{}, {}][:n])
            plan = None
        if auto.is_tuning_complete():
            break
        sets = len(rig.exp.sets)
        mark = len(log)
        auto.iterate()
        done = rig.exp.sets[sets:]
        if plan is not None:
            ctx.claim('every plan is carried out in the next iteration', len(done) == 1)
            ctx.claim('exactly the planned gates are set', set(done[0]) == set(plan))
            for g in plan:
                ctx.close('exactly the planned voltages are set', done[0].get(g, np.nan), plan[g])
            hardware.update(plan)
            plan = None
        else:
            ctx.claim('no voltage is set without a plan', not done)
        for e in log[mark:]:
            if e[0] == 'next':
                plan = e[3]
        for g in hardware:
            ctx.close('all other voltages stay untouched', rig.exp.v[g], hardware[g])


@harness('C02', quick=[dict(gates=2)], thorough=[dict(gates=3)], expect=['a plan with NaN is refused'])
def nan_voltages(ctx, gates):
    names = tuple('abc'[:gates])
    rig = Rig(ctx, 1, gates=names)
    plan = {g: ctx.maybe_nan('plan_' + g) for g in names}
    rig._propose = None
    rig.tuners[0].propose = lambda t: series(plan, plan.values())
    rig.tuners[0].verdict = lambda t: False
    rig.auto.iterate()
    rig.auto.iterate()
    if any(isnan(v) for v in plan.values()):
        ctx.raises('a plan with NaN is refused', RuntimeError, rig.auto.iterate)
        ctx.claim('a refused plan sets nothing', not rig.exp.sets)
        ctx.raises('a plan with NaN stays refused', RuntimeError, rig.auto.iterate)
        ctx.claim('a refused plan sets nothing', not rig.exp.sets)
    else:
        rig.auto.iterate()
        ctx.claim('a finite plan is carried out', len(rig.exp.sets) == 1)


@harness('C02', expect=['incoherently named gates are refused', 'coherently named gates are accepted'])
def incoherent_names(ctx):
    """Each of the places which name gates either uses known gates or not; the iteration runs only if all do."""
    n = ctx.choice('bad_tuner', [0, 1])
    where = ctx.choice('where', ['nowhere', 'last_voltages', 'solver', 'estimator', 'plan'])
    log = []
    exp = FakeExperiment({g: ctx.real('v_' + g) for g in ('a', 'b')}, log)
    calls = dict(n=0)

    def build(i):
        bad = i == n
        last = series(['a', 'x'] if bad and where == 'last_voltages' else ['b', 'a'], [0., 0.])
        pos = series(['a', 'x'] if bad and where in ('solver',) else ['a'], [0.] * (2 if bad and where == 'solver' else 1))
        est_gates = ['a']
        if bad and where == 'solver':
            est_gates = ['a', 'x']
        if bad and where == 'estimator':
            est_gates = ['a', 'b', 'x']
        est = StubEstimator(series(est_gates, [0.] * len(est_gates)), series(est_gates, [1.] * len(est_gates)))
        p = 'p%d' % i
        target = make_target(desired=series([p], [0.]), tolerance=series([p], [1.]))
        solver = NewtonSolver(target, [est], pos, series([p], [1.]))

        def evaluate():
            calls['n'] += 1
            return series([p], [5.]), series([p], [1.])
        return SubsetTuner([StubEvaluator([p], evaluate)], list(pos.index), solver=solver, last_voltage=last)
    tuners = [build(i) for i in range(2)]
    kw = dict(voltage_to_set=series(['a', 'x'], [0., 0.])) if where == 'plan' else {}
    auto = Autotuner(exp, tuners, **kw)
    if where == 'nowhere':
        ctx.claim('coherently named gates are accepted', bool(auto.ready_to_tune()))
        auto.iterate()
        ctx.claim('coherently named gates are accepted', calls['n'] == 1)
        return
    ctx.raises('incoherently named gates are refused', (RuntimeError, AssertionError), auto.iterate)
    ctx.claim('nothing is measured or set with incoherent names', calls['n'] == 0 and not exp.sets)


# ---- C03 ---------------------------------------------------------------------------------------------------------
@harness('C03', quick=[dict(n=2, p=2), dict(n=4, p=1)], thorough=[dict(n=2, p=3), dict(n=3, p=2), dict(n=5, p=1)],
         expect=['a group learns exactly the tuned parameters below it'], max_paths=20000)
def tuned_parameters(ctx, n, p):
    log = []
    exp = FakeExperiment({'a': ctx.real('va')}, log)
    names = [['t%d_p%d' % (i, j) for j in range(p)] for i in range(n)]
    relevant = []
    tuners = []
    for i in range(n):
        keep = [ctx.flag('relevant_' + q) for q in names[i]]
        relevant.append({q for q, k in zip(names[i], keep) if k})
        if i == 1:
            t = make_target(minimum=series(names[i], [ctx.real('min_' + q) if k else np.nan for q, k in zip(names[i], keep)]),
                            cost_threshold=series(names[i], [ctx.real('c_' + q) if k else np.nan for q, k in zip(names[i], keep)]))
        else:
            t = make_target(desired=series(names[i], [ctx.real('d_' + q) if k else np.nan for q, k in zip(names[i], keep)]),
                            tolerance=series(names[i], [ctx.real('tol_' + q) if k else np.nan for q, k in zip(names[i], keep)]))
        tuners.append(StubTuner('t%d' % i, t, log, None, lambda tuner: series(['a'], [ctx.real('next')]), ['a']))
    auto = Autotuner(exp, tuners)
    for rnd in range(2):
        if rnd and ctx.flag('retarget'):
            q = names[0][0]
            if q in relevant[0]:                    # a relevant parameter is given up, an open one gets a target
                relevant[0].remove(q)
                new = {'desired': series([q], [np.nan]), 'tolerance': series([q], [np.nan])}
            else:
                relevant[0].add(q)
                new = {'desired': series([q], [ctx.real('new_d')]), 'tolerance': series([q], [ctx.real('new_tol')])}
            auto.change_targets([new])
        stop = ctx.choice('first_untuned%d' % rnd, list(range(n)))
        for i, t in enumerate(tuners):
            t.verdict = lambda tuner, i=i: i < stop
        mark = len(log)
        for k in range(stop + 2):
            auto.iterate()
        asked = [e for e in log[mark:] if e[0] == 'next']
        ctx.claim('the first group that is not tuned is asked for voltages', [e[1] for e in asked] == ['t%d' % stop])
        want = set().union(*relevant[:stop]) if stop else set()
        ctx.claim('a group learns exactly the tuned parameters below it', asked[0][2] == want)
        auto.iterate()
