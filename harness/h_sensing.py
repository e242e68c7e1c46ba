"""Sensing dot scans: the steepest point of a fitted flank."""
import numpy as np
import pandas as pd

from harness.common import FakeExperiment, series, snapshot
from qtune.evaluator import SensingDot1D, SensingDot2D
from qtune.experiment import Measurement
from symx.ctx import harness


class ScanExperiment(FakeExperiment):
    def __init__(self, voltages, data):
        super().__init__(voltages)
        self.data, self.seen = data, []

    def measure(self, measurement):
        self.seen.append((measurement, dict(measurement.options)))
        return self.data


def _array(ctx, rows):
    return np.array(rows, dtype=object if ctx.symbolic else float)


def _axis(center, rng, n):
    return [center - rng + 2 * rng * i / (n - 1) for i in range(n)]


def _slope(coefs, t, step):
    """The increase of sum(c_k t^(k+1)) from t to t + step."""
    r = 0.
    for k, c in enumerate(coefs):
        r = r + c * ((t + step) ** (k + 1) - t ** (k + 1))
    return r


def _found(label, ctx, got, axis):
    hit = [i for i, x in enumerate(axis) if bool(abs(got - x) < 1e-9)]
    ctx.claim(label, len(hit) == 1)
    return hit[0] if len(hit) == 1 else None


def _slack(ctx, *values):
    return 0. if ctx.symbolic else 1e-7 * (1 + max(abs(v) for v in values))


@harness('C27', quick=[dict(points=17, degree=2), dict(points=32, degree=2), dict(points=17, degree=3)],
         thorough=[dict(points=33, degree=2), dict(points=32, degree=3), dict(points=49, degree=2)],
         expect=['the position is the steepest point of the chosen flank', 'the current signal is the slope at the present voltage'], max_paths=20000)
def line_scan(ctx, points, degree):
    """A smooth line with symbolic offset, slope and curvature around the present voltage."""
    vary = degree == 2
    gate = ctx.choice('gate', ['SDB2', 'SDB1']) if vary else 'SDB2'
    center = ctx.choice('center', [0., -0.25]) if vary else -0.25
    rising = ctx.choice('flank', [None, True, False] if vary else [True, False])
    rng = (points - 1) / 128.
    step = 2 * rng / (points - 1)
    coefs = [ctx.real('c%d' % (k + 1), lo=-64., hi=64.) for k in range(degree)]
    offset = ctx.real('c0', lo=-64., hi=64.)
    t = [step * i - rng for i in range(points)]
    line = [offset + _slope(coefs, 0., x) for x in t]
    volt = {'SDB1': 0.5, 'SDB2': 0.5, 'N': 1.}
    volt[gate] = center
    shape = [line] if vary and ctx.flag('nested') else line
    exp = ScanExperiment(volt, _array(ctx, shape))
    m = Measurement('line_scan', center=None, range=rng, gate='other', N_points=points, ramptime=.0005)
    names = ('position_' + gate, 'current_signal', 'optimal_signal')
    ev = SensingDot1D(exp, sweeping_gate=gate, parameters=names, measurements=(m,), **({} if rising is None else dict(rising_flank=rising)))
    value, error = ev.evaluate()
    ctx.claim('one scan is made around the present voltage', len(exp.seen) == 1 and exp.seen[0][0] is m and
              exp.seen[0][1]['gate'] == gate and exp.seen[0][1]['center'] == center)
    ctx.close_map('the voltages stay', exp.read_gate_voltages(), volt)
    ctx.claim('every parameter has a value and an error', set(value.index) == set(names) == set(error.index))
    slopes = [_slope(coefs, x, step) for x in t[:-1]]
    sign = -1. if rising is False else 1.
    inner = range(points // 16, points - 1 - points // 16)
    at = _found('the position lies on the axis of the scan', ctx, value['position_' + gate], _axis(center, rng, points))
    if at is not None:
        ctx.claim('the position lies inside the scan', at in inner)
        if at in inner:
            ctx.claim('the position is the steepest point of the chosen flank',
                      ctx.And(*[sign * slopes[at] >= sign * slopes[i] - _slack(ctx, slopes[i]) for i in inner]))
    cur, opt = value['current_signal'], value['optimal_signal']
    mid = [slopes[(points - 1) // 2], slopes[min(points // 2, points - 2)]]
    ctx.claim('the current signal is the slope at the present voltage',
              ctx.Or(*[ctx.And(cur <= s + _slack(ctx, s), cur >= s - _slack(ctx, s)) for s in mid]))
    ctx.claim('the optimal signal is the steepest slope', ctx.And(*[sign * opt >= sign * slopes[i] - _slack(ctx, slopes[i]) for i in inner]))
    ctx.claim('the optimal signal is found in the scan', ctx.Or(*[sign * opt <= sign * s + _slack(ctx, s) for s in slopes]))
    x, y = ev.raw_data
    ctx.close_seq('the axis is kept', list(x), _axis(center, rng, points), tol=1e-9)
    ctx.close_seq('the data are kept', list(np.asarray(y).ravel()), line)


@harness('C27', quick=[dict(lines=2, points=50, degree=2)], thorough=[dict(lines=3, points=50, degree=2), dict(lines=2, points=50, degree=2), dict(lines=2, points=75, degree=2)],
         expect=['the position is the steepest point of the chosen flank'], max_paths=20000)
def plane_scan(ctx, lines, points, degree):
    """A plane of smooth lines with symbolic slopes and curvatures."""
    gates = ctx.choice('gates', [('SDB1', 'SDB2'), ('SDB2', 'SDB1')])
    center = [ctx.choice('center0', [0., 0.125]), -0.25]
    rising = ctx.choice('flank', [None, True, False])
    rng = (points - 1) / 256.
    step = 2 * rng / (points - 1)
    coefs = [[ctx.real('c%d_%d' % (r, k + 1), lo=-64., hi=64.) if k == 0 or r == 0 else 0. for k in range(degree)] for r in range(lines)]
    t = [step * i - rng for i in range(points)]
    plane = [[_slope(c, 0., x) for x in t] for c in coefs]
    volt = {gates[0]: center[0], gates[1]: center[1], 'N': 1.}
    exp = ScanExperiment(volt, _array(ctx, plane))
    m = Measurement('2d_scan', center=[None, None], range=rng, gate1=gates[0], gate2=gates[1], n_lines=lines, n_points=points)
    names = tuple('position_' + g for g in gates)
    ev = SensingDot2D(exp, sweeping_gates=gates, scan_range=rng, parameters=names, measurements=(m,), **({} if rising is None else dict(rising_flank=rising)))
    value, error = ev.evaluate()
    ctx.claim('one scan is made around the present voltages', len(exp.seen) == 1 and exp.seen[0][0] is m and list(exp.seen[0][1]['center']) == center)
    ctx.close_map('the voltages stay', exp.read_gate_voltages(), volt)
    ctx.claim('every parameter has a value and an error', set(value.index) == set(names) == set(error.index))
    slopes = [[_slope(c, x, step) for x in t[:-1]] for c in coefs]
    sign = -1. if rising is False else 1.
    inner = range(points // 25, points - 1 - points // 25)
    row = _found('the position lies on the axis of the scan', ctx, value[names[0]], _axis(center[0], rng, lines))
    at = _found('the position lies on the axis of the scan', ctx, value[names[1]], _axis(center[1], rng, points))
    if row is not None and at is not None:
        ctx.claim('the position lies inside the scan', at in inner)
        if at in inner:
            ctx.claim('the position is the steepest point of the chosen flank',
                      ctx.And(*[sign * slopes[row][at] >= sign * s[i] - _slack(ctx, s[i]) for s in slopes for i in inner]))
