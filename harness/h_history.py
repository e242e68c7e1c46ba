"""C23: the History records the tuning."""
import concurrent.futures
import contextlib
import os

import numpy as np
import pandas as pd

from harness.common import FakeExperiment, make_target, scratch, series, snapshot, stepping
from qtune.autotuner import Autotuner
from qtune.evaluator import Evaluator
from qtune.gradient import GradientEstimator
from qtune.history import History
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver, NewtonSolver
from symx.ctx import harness

GATES = ['b-1', 'a', 'z']                 # z is only read


class Journal:
    """What happened, in the words of the test: one page per set of voltages."""

    def __init__(self):
        self.pages, self.page = [], None

    def turn(self, voltages):
        self.page = dict(v=dict(voltages), par={}, var={}, grad={}, cov={}, raw={})

    def keep(self):
        if not self.pages or self.pages[-1] is not self.page:
            self.pages.append(self.page)


class NotedEvaluator(Evaluator):
    def __init__(self, experiment, measurements=(), parameters=(), raw_x_data=None, raw_y_data=None, name='noted', source=None):
        super().__init__(experiment, measurements, parameters, raw_x_data, raw_y_data, name)
        self.source = source

    def evaluate(self):
        return self.source(self)

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return super().to_hdf5()


class NotedEstimator(GradientEstimator):
    """A new gradient after every update, unknown before the first `unknown` of them."""

    def __init__(self, current_position, parameter, unknown, values, updates=0):
        self._current_position, self.parameter, self.unknown, self.values, self.updates = current_position, parameter, unknown, values, updates

    def change_position(self, new_position):
        self._current_position = new_position

    def _get(self, kind):
        if self.updates < self.unknown:
            return None
        return self.values(kind, self.parameter, self.updates, list(self._current_position.index))

    def estimate(self):
        return self._get('grad')

    def covariance(self):
        return self._get('cov')

    def require_measurement(self, gates=None, tuned_jacobian=None):
        return None

    def update(self, position, value, covariance, is_new_position=False):
        self.updates += 1

    def to_hdf5(self):
        return dict(current_position=self._current_position, parameter=self.parameter, unknown=self.unknown, values=None, updates=self.updates)


class FreeNewton(NewtonSolver):
    source = None

    def suggest_next_position(self, tuned_parameters=None):
        return self.source()

    def to_hdf5(self):
        return super().to_hdf5()


def _rig(ctx, groups, unknown, partial):
    """Groups: a sensing dot, or tuned by gradients (two kinds)."""
    n = dict(eval=0, pos=0)
    j = Journal()
    start = {g: float(i) for i, g in enumerate(GATES)}
    exp = FakeExperiment(start)
    memo = {}

    def numbers(kind, parameter, k, gates):
        key = kind, parameter, k
        if key not in memo:
            # the values of the first gate are symbolic
            if kind == 'grad':
                memo[key] = pd.Series([ctx.real('g_%s%d' % (parameter, k))] + [.5 + k] * (len(gates) - 1), index=gates)
            else:
                c = np.array([[2. + k, .25], [.25, 3.]], dtype=object)
                c[0, 0] = ctx.real('c_%s%d' % (parameter, k))
                memo[key] = pd.DataFrame(c if ctx.symbolic else c.astype(float), index=gates, columns=gates)
        return memo[key]

    def measure(ev):
        n['eval'] += 1
        par, var = {}, {}
        for p in ev.parameters:
            par[p] = ctx.real('%s_%d' % (p, n['eval'])) if p not in ('aux', 'r') else float(n['eval'])
            if p == 'r':
                par[p] = .25
            var[p] = ctx.real('var_%s_%d' % (p, n['eval']), lo=0) if p in ('p', 'pos') else 4. ** (n['eval'] % 3)
            scale = factors.get(p, 1.)
            if p != 'aux' and not (p == 'r' and partial):       # only parameters with a complete target
                j.page['par'][p], j.page['var'][p] = par[p] / scale, var[p] / scale ** 2
        ev._raw_x_data, ev._raw_y_data = (np.array([1.]),), (np.array([float(n['eval'])]),)
        j.page['raw'][ev.name] = float(n['eval'])
        return series(par, par.values()), series(var, var.values())

    factors = {'p': 2.}
    gates = GATES[:2]
    pos = series(gates, [exp.v[g] for g in gates])

    def next_position():
        n['pos'] += 1
        return series(gates, [ctx.real('v%d_%s' % (n['pos'], gates[0])), 10. * n['pos']])

    def newton(names, all_names):
        target = make_target(desired=series(all_names, [0. if p in names else np.nan for p in all_names]),
                             tolerance=series(all_names, [np.nan if p == 'r' and partial else 1. for p in all_names]),
                             rescaling_factor=series(all_names, [factors.get(p, 1.) for p in all_names]))
        ests = [NotedEstimator(pos.copy(), p, unknown if p == 'q' else 0, numbers) for p in target.index]
        solver = FreeNewton(target, ests, pos.copy())
        solver.source = next_position
        return solver, ests
    tuners, estimators = [], []
    for group in groups:
        if group == 'dot':
            target = make_target(minimum=series(['sig', 'pos'], [1., np.nan]), cost_threshold=series(['sig', 'pos'], [0., np.nan]))
            cheap = NotedEvaluator(exp, parameters=('sig', 'pos'), name='cheap', source=measure)
            expensive = NotedEvaluator(exp, parameters=('pos',), name='expensive', source=measure)
            tuners.append(SensingDotTuner([cheap], [expensive], [gates[0]], solver=ForwardingSolver(target, series(['pos'], [gates[0]]), series([gates[0]], [exp.v[gates[0]]])),
                                          last_voltage=series(start, start.values())))
            estimators.append([])
        elif group == 'first':
            solver, ests = newton(['p'], ['aux', 'p'])
            tuners.append(SubsetTuner([NotedEvaluator(exp, parameters=('p', 'aux'), name='first', source=measure)], gates, solver=solver))
            estimators.append(ests)
        else:
            solver, ests = newton(['q', 'r'], ['q', 'r'])
            tuners.append(SubsetTuner([NotedEvaluator(exp, parameters=('r',), name='ev r', source=measure), NotedEvaluator(exp, parameters=('q',), name='ev q', source=measure)],
                                      gates, solver=solver))
            estimators.append(ests)
    return exp, j, Autotuner(exp, tuners), estimators


def _note_gradients(j, ests):
    for e in ests:
        grad, cov = e.estimate(), e.covariance()
        gates = list(e.current_position.index)
        j.page['grad'][e.parameter] = {g: np.nan for g in gates} if grad is None else snapshot(grad)
        j.page['cov'][e.parameter] = {(g, h): np.nan if cov is None else cov.loc[g, h] for g in gates for h in gates}


def _compare(ctx, h, j, params, grads, evaluators=True):
    ctx.claim('one entry per set of voltages', h.number_of_stored_iterations == len(j.pages))
    if h.number_of_stored_iterations != len(j.pages):
        return
    ctx.claim('the gates are known', set(h.gate_names) == set(GATES))
    ctx.claim('the parameters are known', set(h.parameter_names) == set(params))
    ctx.claim('the gradients are known', {p: set(g) for p, g in h.gradient_controlled_parameter_names.items()} == {p: set(GATES[:2]) for p in grads})
    for g in GATES:
        ctx.close_seq('the voltages are recorded', h.get_gate_values(g), [p['v'][g] for p in j.pages])
    for name in params:
        ctx.close_seq('the values are recorded', h.get_parameter_values(name), [p['par'].get(name, np.nan) for p in j.pages])
        std = list(h.get_parameter_std(name))
        for got, page in zip(std, j.pages):
            want = page['var'].get(name, np.nan)
            ctx.close('the standard deviations are recorded', got if want != want else got * got, want)
    for name in grads:
        got = h.get_gradients(name)
        ctx.claim('the gradients are found under their gates', set(got.columns) == set(GATES[:2]))
        var = h.get_gradient_variances(name)
        cov = h.get_gradient_covariances(name)
        ctx.claim('the variances are found under their gates', set(var.columns) == set(GATES[:2]))
        ctx.claim('the covariances are found under their gates', set(cov.columns) == {(g, k) for g in GATES[:2] for k in GATES[:2]})
        for g in GATES[:2]:
            if g in got.columns:
                ctx.close_seq('the gradients are recorded', got[g], [p['grad'].get(name, {}).get(g, np.nan) for p in j.pages])
            if g in var.columns:
                ctx.close_seq('the gradient variances are recorded', var[g], [p['cov'].get(name, {}).get((g, g), np.nan) for p in j.pages])
            for k in GATES[:2]:
                if (g, k) in cov.columns:
                    ctx.close_seq('the gradient covariances are recorded', cov[g, k], [p['cov'].get(name, {}).get((g, k), np.nan) for p in j.pages])
    if evaluators:
        data = h.evaluator_data
        for name in {n for p in j.pages for n in p['raw']}:
            ctx.claim('the raw data are known', name in data.columns)
            if name in data.columns:
                for got, page in zip(data[name], j.pages):
                    if name in page['raw']:
                        ctx.claim('the raw data are recorded', isinstance(got, dict) and got['name'] == name and float(got['raw_y_data'][0][0]) == page['raw'][name])
                    else:
                        ctx.claim('no data of others are recorded', not isinstance(got, dict))


@harness('C23', quick=[dict(groups=['first', 'second'], steps=6, unknown=1), dict(groups=['dot', 'second'], steps=5, unknown=1, partial=True),
                       dict(groups=['first', 'dot'], steps=5, unknown=0)],
         thorough=[dict(groups=['first', 'second'], steps=8, unknown=2), dict(groups=['dot', 'second'], steps=6, unknown=2),
                   dict(groups=['first', 'dot'], steps=6, unknown=0), dict(groups=['first', 'dot', 'second'], steps=6, unknown=1)],
         expect=['the values are recorded', 'the gradients are recorded'], max_paths=30000)
def records(ctx, groups, steps, unknown, partial=False):
    """Any of the states is appended; in between the tuning may be restarted or its targets changed."""
    exp, j, auto, ests = _rig(ctx, groups, unknown, partial)
    params = [p for g in groups for p in {'dot': ['sig', 'pos'], 'first': ['p'], 'second': ['q', 'r']}[g]]
    grads = [p for g in groups for p in {'dot': [], 'first': ['aux', 'p'], 'second': ['q', 'r']}[g]]
    h = History(None)
    event_at = ctx.choice('event at', [None] + list(range(2, steps)))
    event = ctx.choice('event', ['restart', 'restart elsewhere', 'change_targets'])
    # a restart forgets what was evaluated: then every state has to be appended
    skip = ctx.choice('not appended', [None] + list(range(steps))) if event_at is None else None
    j.turn(exp.v)
    pending = False                                 # voltages were set and nothing was evaluated there yet
    first_entry = True
    for k in range(steps):
        if k == event_at:
            if event == 'change_targets':
                auto.change_targets([{}, {}])
            else:
                if event == 'restart elsewhere':
                    exp.v['z'] = ctx.real('manual')
                    ctx.require(ctx.Not(exp.v['z'] == 2.))
                if event == 'restart elsewhere' or pending:
                    j.turn(exp.v)
                    pending = False
                auto.restart()
                h.append_autotuner(auto, 'restart')
                j.keep()
                _compare(ctx, h, j, params, grads)
        if auto.is_tuning_complete():
            break
        index, evaluating = auto.current_tuner_index, auto.voltages_to_set is None and not auto.current_tuner_status
        before, sets = dict(exp.v), len(exp.sets)
        if evaluating and pending:
            j.turn(exp.v)
            pending = False
        auto.iterate()
        if evaluating:
            _note_gradients(j, ests[index])
        if len(exp.sets) > sets:
            ctx.require(ctx.Or(*[exp.v[g] != before[g] for g in GATES]))         # a step of zero length opens no new entry
            pending = True
        if k == skip:
            continue
        if first_entry:                              # starts with everything that is known about all groups
            for group in ests:
                _note_gradients(j, group)
            first_entry = False
        h.append_autotuner(auto, 'file %d' % k)
        j.keep()
        ctx.claim('the latest file belongs to the entry', h.get_reload_path(h.number_of_stored_iterations - 1) == 'file %d' % k)
        _compare(ctx, h, j, params, grads)


class Inline:
    """An executor that works when it is asked."""

    def __init__(self, *args, **kw):
        pass

    def map(self, fn, *iterables, **kw):
        return [fn(*a) for a in zip(*iterables)]

    def submit(self, fn, *args, **kw):
        f = concurrent.futures.Future()
        f.set_result(fn(*args, **kw))
        return f

    def shutdown(self, *args, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


@contextlib.contextmanager
def inline():
    saved = concurrent.futures.ThreadPoolExecutor
    concurrent.futures.ThreadPoolExecutor = Inline
    try:
        yield
    finally:
        concurrent.futures.ThreadPoolExecutor = saved


def _same_history(ctx, label, got, want, rows):
    a, b = got._data_frame, want._data_frame
    ctx.claim(label + ' (columns)', set(a.columns) == set(b.columns))
    ctx.claim(label + ' (entries)', len(a) == len(rows))
    if len(a) == len(rows) and set(a.columns) == set(b.columns):
        for c in a.columns:
            ctx.close_seq(label, a[c], [b[c].iloc[r] for r in rows])


@harness('C23', quick=[dict(setup='kalman', steps=7), dict(setup='dot', steps=6), dict(setup='fd', steps=12)],
         thorough=[dict(setup='kalman', steps=10), dict(setup='dot', steps=8), dict(setup='fd', steps=24), dict(setup='all', steps=8)],
         expect=['the library has the same history'], max_paths=30000)
def library(ctx, setup, steps):
    """The history read from the saved files is that of the tuning."""
    from harness.h_persist import Script, Scripted, _hierarchy, _value
    volt = {g: ctx.real('start_' + g) if g in 'zs' and setup != 'kalman' else .5 for g in ('z', 'b', 'a', 's')}
    script = Script(ctx)
    script.make = _value(ctx, setup)
    exp = Scripted(volt, script)
    want, files = History(None), []
    with scratch() as d, stepping() as queues, inline():
        path = os.path.join(d, 'library')
        auto = Autotuner(exp, _hierarchy(ctx, exp, volt, setup), hdf5_storage_path=path)
        try:
            for k in range(steps):
                if auto.is_tuning_complete():
                    break
                auto.iterate()
                want.append_autotuner(auto)
                files.append(auto.last_save_file)
            for q in queues:
                q.join()
            folder = os.path.dirname(files[0])
            ctx.claim('the library holds a file per iteration', sorted(os.path.join(folder, f) for f in os.listdir(folder)) == files)
            got = History(folder, exp)
            n = want.number_of_stored_iterations
            _same_history(ctx, 'the library has the same history', got, want, list(range(n)))
            ctx.claim('the entries refer to the same files', [got.get_reload_path(i) for i in range(n)] == [want.get_reload_path(i) for i in range(n)])
            last = History(files[-1], exp)
            ctx.claim('a file is one entry', last.number_of_stored_iterations == 1)
            for g in volt:
                ctx.close('a file has the voltages of the last evaluation', last.get_gate_values(g).iloc[0], want.get_gate_values(g).iloc[n - 1])
        finally:
            for q in queues:
                q.close()
