"""Evaluators that do not depend on numerical curve fitting."""
import numpy as np
import pandas as pd

from harness.common import FakeExperiment, StubEvaluator, series, snapshot, total
from qtune.evaluator import AveragingEvaluator, Evaluator, LeadTransition
from qtune.experiment import Measurement
from qtune.util import new_find_lead_transition_index
from symx.ctx import harness, isnan


# ---- C21 ---------------------------------------------------------------------------------------------------------
class RawEvaluator(StubEvaluator):
    """Leaves raw data behind, as the real evaluators do."""

    def __init__(self, parameters, source):
        super().__init__(parameters, source, name='Raw')

    def evaluate(self):
        self._raw_x_data = ['x', self.calls]
        self._raw_y_data = ['y', self.calls]
        return super().evaluate()

    def to_hdf5(self):
        return {}


@harness('C21', quick=[dict(n=1, m=1), dict(n=2, m=2), dict(n=3, m=1), dict(n=4, m=1)],
         thorough=[dict(n=1, m=2), dict(n=2, m=3), dict(n=3, m=2), dict(n=5, m=1), dict(n=7, m=1)],
         expect=['the value is the mean of the valid repetitions', 'the variance is that of the mean', 'every repetition measures'])
def averaging(ctx, n, m):
    """n repetitions of m parameters; any of them may fail (NaN).  The second evaluation forgets the first."""
    params = ['p%d' % i for i in range(m)]
    rounds = []

    def source():
        k = len(rounds)
        order = (params[::-1] if k % 2 else params) + ['other']
        vals = {p: ctx.maybe_nan('v%d_%s' % (k, p)) if p == params[-1] else ctx.real('v%d_%s' % (k, p)) for p in order}
        rounds.append(vals)
        return series(order, vals.values()), series(order, [ctx.real('e%d_%s' % (k, p), lo=0.) for p in order])
    inner = RawEvaluator(params, source)
    ev = AveragingEvaluator(inner, n)
    ctx.claim('the parameters are those of the inner evaluator', tuple(ev.parameters) == tuple(params))
    for again in range(2 if n < 3 and m < 2 else 1):
        del rounds[:]
        before = inner.calls
        value, var = ev.evaluate()
        ctx.claim('every repetition measures', inner.calls - before == n)
        ctx.claim('the result names the parameters', set(value.index) == set(params) and set(var.index) == set(params))
        for p in params:
            valid = [r[p] for r in rounds if not isnan(r[p])]
            if valid:
                mean = total(valid) / len(valid)
                ctx.close('the value is the mean of the valid repetitions', value[p], mean)
                ctx.close('the variance is that of the mean', var[p], total([(x - mean) * (x - mean) for x in valid]) / len(valid) / len(valid))
            else:
                ctx.claim('without a valid repetition there is no value', isnan(value[p]) and isnan(var[p]))
        x, y = ev.raw_data
        ctx.claim('the raw data of all repetitions are kept in order', [list(a) for a in x] == [['x', before + i] for i in range(n)] and
                  [list(a) for a in y] == [['y', before + i] for i in range(n)])


# ---- C22 ---------------------------------------------------------------------------------------------------------
class ScanExperiment(FakeExperiment):
    def __init__(self, voltages, scans, fail=None):
        super().__init__(voltages)
        self.scans, self.fail, self.seen = scans, fail, []

    def measure(self, measurement):
        self.seen.append((measurement, dict(self.v)))
        if self.fail is not None and len(self.seen) - 1 == self.fail:
            raise RuntimeError('the scan failed')
        return self.scans[len(self.seen) - 1]


def _array(ctx, rows):
    return np.array(rows, dtype=object if ctx.symbolic else float)


def _steepest(ctx, label, data, index, width):
    """The change over some window of this width around index is the largest of all."""
    n = len(data)
    starts = range(0, n - width - 1)
    best = [abs(data[i] - data[i + width]) for i in starts]
    options = [ctx.And(*[best[i] >= b - (0. if ctx.symbolic else 1e-9 * (1 + abs(b))) for b in best]) for i in starts if i <= index <= i + width]
    ctx.claim(label, ctx.Or(*options) if options else False)


@harness('C22', quick=[dict(points=8, two_dim=False), dict(points=6, two_dim=True)],
         thorough=[dict(points=10, two_dim=False), dict(points=8, two_dim=True), dict(points=9, two_dim=False, gates=3)],
         expect=['the voltages are restored'])
def lead_transition(ctx, points, two_dim, gates=2):
    shifting = ['RFB', 'RFA', 'RFC'][:gates]
    sweeping = ['RFA', 'RFB', 'RFD'][:gates]
    names = sorted(set(shifting + sweeping)) + ['N']
    volt = {g: ctx.real('volt_' + g) for g in names}
    fail = ctx.choice('failing scan', [None] + list(range(gates)))
    width = ctx.real('diagram', lo=0.)
    scans, meas, raw, windows = [], [], [], []
    for k, g in enumerate(sweeping):
        rng = 1. if k != 1 else ctx.choice('range', [1., 2.])
        center = ctx.real('center%d' % k)
        meas.append(Measurement('line_scan', center=center, range=rng, gate=g, N_points=points, ramptime=.001, N_average=2))
        # the data of one scan is free, the others hold one step
        if k == 0:
            rows = [[ctx.real('d%d_%d_%d' % (k, r, i)) for i in range(points)] for r in range(2 if two_dim else 1)]
        else:
            step = 2 + k
            rows = [[float(i >= step) for i in range(points)]] * (2 if two_dim else 1)
        raw.append([total([r[i] for r in rows]) / len(rows) for i in range(points)])
        scans.append(_array(ctx, rows if two_dim else rows[0]))
        windows.append(int(2. / points / rng * points))
    saved = [s.copy() for s in scans]
    exp = ScanExperiment(volt, scans, fail)
    ev = LeadTransition(exp, shifting_gates=tuple(shifting), sweeping_gates=tuple(sweeping), charge_diagram_width=width, measurements=meas,
                        parameters=tuple('position_' + g for g in shifting), transition_width=2. / points)
    if fail is not None:
        ctx.raises('a failing scan is reported', RuntimeError, ev.evaluate)
    else:
        value, var = ev.evaluate()
    for i, (m, v) in enumerate(exp.seen):
        ctx.claim('the scans are the given measurements', m is meas[i])
        for g in names:
            ctx.close('a scan shifts exactly its gate', v[g], volt[g] - width if g == shifting[i] else volt[g])
    ctx.close_map('the voltages are restored', exp.read_gate_voltages(), volt)
    for a, b in zip(scans, saved):
        ctx.claim('the data are not modified', all(x is y or bool(x == y) for x, y in zip(a.ravel(), b.ravel())))
    if fail is not None:
        return
    ctx.claim('every gate is scanned once', len(exp.seen) == gates)
    ctx.claim('all positions are found', set(value.index) == set('position_' + g for g in shifting) == set(var.index))
    for k, g in enumerate(shifting):
        o = meas[k].options
        axis = [o['center'] - o['range'] + 2 * o['range'] * i / (points - 1) for i in range(points)]
        found = [i for i in range(points) if bool(abs(value['position_' + g] - axis[i]) < 1e-6)]
        ctx.claim('the position lies on the axis of its scan', len(found) == 1)
        if found:
            _steepest(ctx, 'the transition is the steepest window', raw[k], found[0], windows[k])


@harness('C22', quick=[dict(points=8, width=1), dict(points=9, width=2), dict(points=10, width=3)],
         thorough=[dict(points=p, width=w) for p in (9, 11, 12) for w in (1, 2, 3)], expect=['the transition is the steepest window'])
def transition_index(ctx, points, width):
    data = _array(ctx, [ctx.real('d%d' % i) for i in range(points)])
    saved = list(data)
    idx = new_find_lead_transition_index(data, width)
    ctx.claim('an index of the data is returned', isinstance(idx, (int, np.integer)) and 0 <= idx < points)
    _steepest(ctx, 'the transition is the steepest window', saved, int(idx), width)
    ctx.claim('the data are not modified', all(a is b or bool(a == b) for a, b in zip(data, saved)))


@harness('C22', quick=[dict(points=12, width=3)], thorough=[dict(points=14, width=w) for w in (1, 2, 3, 4)],
         expect=['a clean step is found within the window'])
def clean_step(ctx, points, width):
    low, high = ctx.real('low'), ctx.real('high')
    ctx.require(ctx.Or(high - low > 0.001, low - high > 0.001))
    at = ctx.choice('at', list(range(1, points - width - 1)))
    shape = [high if i >= at else low for i in range(points)]
    idx = new_find_lead_transition_index(_array(ctx, [shape] if ctx.flag('row') else shape), width)
    ctx.claim('a clean step is found within the window', abs(idx - at) <= width)
