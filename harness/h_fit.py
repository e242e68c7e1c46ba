"""Evaluators that fit a model: the fit itself (scipy) is the environment, by its contract."""
import contextlib
import sys

import numpy as np
import pandas as pd
import scipy.optimize

import qtune.evaluator
import qtune.util
from harness.common import FakeExperiment, series, snapshot, total
from qtune.evaluator import InterDotTCByLineScan, LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion, NewLoadTime
from qtune.experiment import Measurement
from symx.ctx import harness, isnan

BOTH_TIMES = ['parameter_time_rise', 'parameter_time_fall']


def _array(ctx, rows):
    return np.array(rows, dtype=object if ctx.symbolic else float)


class ScanExperiment(FakeExperiment):
    def __init__(self, data):
        super().__init__({'RFA': 0., 'RFB': 0.})
        self.data, self.seen = data, []

    def measure(self, measurement):
        self.seen.append((measurement, dict(measurement.options)))
        return self.data


class Fits:
    """scipy.optimize.curve_fit: finds the parameters or raises RuntimeError; ValueError for an infeasible start."""

    def __init__(self, ctx, fails_at, results):
        self.ctx, self.fails_at, self.results, self.calls = ctx, fails_at, results, []

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, absolute_sigma=False, check_finite=True, bounds=(-np.inf, np.inf), **kw):
        n = len(self.calls)
        start = list(p0)
        self.calls.append((f, list(xdata), list(ydata), start))
        if any(isnan(v) for v in list(ydata) + list(xdata)):
            raise ValueError('array must not contain infs or NaNs')
        low, high = (list(b) if np.ndim(b) else [b] * len(start) for b in bounds)
        for v, lo, hi in zip(start, low, high):
            if not (bool(lo <= v) and bool(v <= hi)):
                raise ValueError('`x0` is infeasible.')
        if sigma is not None:
            self.ctx.claim('every point of the fit has a positive uncertainty', len(sigma) == len(self.calls[-1][2]) and all(bool(s > 0) for s in sigma))
        if n == self.fails_at:
            raise RuntimeError('Optimal parameters not found: Number of calls to function has reached maxfev.')
        popt = _array(self.ctx, list(self.results[min(n, len(self.results) - 1)]))
        return popt, np.eye(len(popt))


@contextlib.contextmanager
def fitting(fits):
    real = scipy.optimize.curve_fit
    names = [k for k, v in vars(qtune.evaluator).items() if v is real]
    plot = qtune.util.plot_raw_data_fit          # no drawing of symbolic data
    scipy.optimize.curve_fit, qtune.util.plot_raw_data_fit = fits, lambda *args, **kw: None
    for k in names:
        setattr(qtune.evaluator, k, fits)
    try:
        yield
    finally:
        scipy.optimize.curve_fit, qtune.util.plot_raw_data_fit = real, plot
        for k in names:
            setattr(qtune.evaluator, k, real)


def _earlier(ctx, ev, exp, data, popt):
    """Maybe an evaluation of other data that went well."""
    if ctx.flag('evaluated before'):
        exp.data = np.array([[2. * i + k for i in range(np.shape(data)[-1])] for k in range(np.shape(data)[0])])
        with fitting(Fits(ctx, None, [popt])):
            ev.evaluate()
        exp.data = data
        del exp.seen[:]


def _same(ctx, label, got, want):
    got, want = list(got), list(want)
    ctx.claim(label, len(got) == len(want))
    for a, b in zip(got, want):
        ctx.close(label, a, b)


def _failed(ctx, ev, value, var, parameters):
    ctx.claim('a failed fit is a failed evaluation', set(value.index) == set(parameters) == set(var.index) and
              all(isnan(value[p]) and isnan(var[p]) for p in parameters))
    ctx.claim('a failed fit leaves no fit results', ev.fit_results is None or all(isnan(v) for v in ev.fit_results.values))


def _fit_results(ctx, ev, names, popt):
    ctx.claim('the fit results are kept by name', set(ev.fit_results.index) == set(names))
    for k, v in zip(names, popt):
        ctx.close('the fit results are kept by name', ev.fit_results[k], v)


def _relative_misfit(ctx, y, model, height):
    return total([(a - b) * (a - b) for a, b in zip(y, model)]) / len(y) / (height * height)


# ---- inter dot tunnel coupling ---------------------------------------------------------------------------------
S_CURVE = ['offset', 'slope', 'height', 'position', 'width']


@harness('C29', quick=[dict(points=13, rows=0), dict(points=13, rows=2)], thorough=[dict(points=17, rows=0), dict(points=25, rows=0), dict(points=13, rows=3)],
         expect=['a failed fit is a failed evaluation', 'the value is the fitted parameter', 'the model is fitted to the measured signal'], int_bound=40, max_paths=20000)
def tunnel_coupling(ctx, points, rows):
    """A scan over the transition: one line or several repetitions of it; either of the two fits may fail."""
    center = ctx.choice('center', [0., 2.])
    rng = (points - 1) / 4.
    axis = [center - rng + 2 * rng * i / (points - 1) for i in range(points)]
    fails_at = ctx.choice('failing fit', [None, 0, 1])
    first = [0., .5, 1., center + ctx.choice('first position', [0., -rng / 3]), 1.]
    unknown = fails_at is None and ctx.flag('unknown parameters')       # symbolic parameters of numerical data, or the other way round
    pos = ctx.real('position', lo=center - rng / 2, hi=center + rng / 2) if unknown else center + .25
    width = ctx.real('width', lo=.25, hi=2.)
    true = [ctx.real('offset', lo=-8., hi=8.), ctx.real('slope', lo=-8., hi=8.), ctx.real('height', lo=.5, hi=8.), pos, width] if unknown else [1., .5, 2., pos, width]
    line = [ctx.real('y%d' % i, lo=-16., hi=16.) if not unknown and i in (1, points // 2) else float(i > points // 2) for i in range(points)]
    if rows:
        data = _array(ctx, [[v + ctx.real('d%d_%d' % (k, i), lo=-4., hi=4.) if not unknown and i == 2 + k else v for i, v in enumerate(line)] for k in range(rows)])
        signal = [total([data[k][i] for k in range(rows)]) / rows for i in range(points)]
    else:
        data, signal = _array(ctx, [line]), line
    exp = ScanExperiment(data)
    before = snapshot(exp.voltages) if hasattr(exp, 'voltages') else None
    meas = Measurement('detune_scan', center=center, range=rng, N_points=points)
    ev = InterDotTCByLineScan(exp, measurements=(meas,))
    _earlier(ctx, ev, exp, data, [1., 2., 3., center, 1.])
    fits = Fits(ctx, fails_at, [first, true])
    with fitting(fits):
        ok, r = ctx.completes('the evaluation ends', ev.evaluate)
    if not ok:
        return
    value, var = r
    ctx.claim('exactly one scan is made', len(exp.seen) == 1 and exp.seen[0][0] is meas)
    x, y = ev.raw_data
    _same(ctx, 'the raw data are kept', np.ravel(y), np.ravel(data))
    _same(ctx, 'the scan axis is kept', x, axis)
    for f, fx, fy, start in fits.calls:
        _same(ctx, 'the model is fitted to the measured signal', fx, axis)
        _same(ctx, 'the model is fitted to the measured signal', fy, signal)
        probe = _array(ctx, [axis[0], pos, axis[-1]])
        got = f(probe, *true)
        for v, g in zip(probe, got):
            ctx.close('the model is the s-curve', g, true[0] + true[1] * v + .5 * true[2] * (1 + np.tanh((v - pos) / true[4])))
    if fails_at is not None:
        return _failed(ctx, ev, value, var, ['parameter_tunnel_coupling'])
    ctx.close_map('the value is the fitted parameter', value, {'parameter_tunnel_coupling': true[4]})
    _fit_results(ctx, ev, S_CURVE, true)
    ctx.claim('the variance is no less than zero', set(var.index) == {'parameter_tunnel_coupling'} and bool(var['parameter_tunnel_coupling'] >= 0))


# ---- singlet reload time ----------------------------------------------------------------------------------------
@harness('C29', quick=[dict(points=5)], thorough=[dict(points=8)],
         expect=['a failed fit is a failed evaluation', 'the value is the fitted parameter', 'the model is fitted to the measured signal', 'a perfect fit has no variance'], max_paths=20000)
def load_time(ctx, points):
    """An exponential decay; the signal is either a perfect one or arbitrary."""
    times = [4. * i + ctx.choice('start', [0., 2.]) for i in range(points)]
    true = [ctx.real('offset', lo=-8., hi=8.), ctx.real('height', lo=.5, hi=8.), ctx.real('curvature', lo=2., hi=300.)]
    model = list(true[0] + true[1] * np.exp(-1. * _array(ctx, times) / true[2]))
    perfect = ctx.flag('perfect')
    signal = model if perfect else [ctx.real('y%d' % i, lo=-16., hi=16.) for i in range(points)]
    fails = ctx.flag('fit fails')
    data = _array(ctx, [signal, times])
    exp = ScanExperiment(data)
    meas = Measurement('load_scan')
    ev = NewLoadTime(exp, measurements=(meas,), initial_curvature=ctx.choice('initial curvature', [30, 2]))
    _earlier(ctx, ev, exp, data, [1., 2., 3.])
    fits = Fits(ctx, 0 if fails else None, [true])
    with fitting(fits):
        ok, r = ctx.completes('the evaluation ends', ev.evaluate)
    if not ok:
        return
    value, var = r
    ctx.claim('exactly one scan is made', len(exp.seen) == 1 and exp.seen[0][0] is meas)
    x, y = ev.raw_data
    _same(ctx, 'the raw data are kept', y, signal)
    _same(ctx, 'the scan axis is kept', x, times)
    for f, fx, fy, start in fits.calls:
        _same(ctx, 'the model is fitted to the measured signal', fx, times)
        _same(ctx, 'the model is fitted to the measured signal', fy, signal)
    if fails:
        return _failed(ctx, ev, value, var, ['parameter_time_load'])
    ctx.close_map('the value is the fitted parameter', value, {'parameter_time_load': true[2]})
    _fit_results(ctx, ev, ['offset', 'height', 'curvature'], true)
    v = var['parameter_time_load']
    ctx.claim('the variance is labelled', set(var.index) == {'parameter_time_load'})
    if perfect:
        ctx.close('a perfect fit has no variance', v, 0.)
    else:
        ctx.close('the variance is the relative misfit', v, 1500. * _relative_misfit(ctx, signal, model, true[1]))


# ---- tunnel times of the leads --------------------------------------------------------------------------------
V1 = ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset']
V2 = V1 + ['slope', 'offset_linear', 'length_lin_fall', 'slope_1', 'offset_linear_1', 'length_lin_rise']


@harness('C29', quick=[dict(prefit=False), dict(prefit=True)],
         expect=['a failed fit is a failed evaluation', 'the value is the fitted parameter', 'the model is fitted to the measured signal'], int_bound=40, max_paths=20000)
def lead_times(ctx, prefit):
    """The rise and fall times of the pulse response; evaluated twice, either evaluation may fail."""
    points, rate = 400, 1e8
    cls, names = (LeadTunnelTimePrefitVersion, V1) if prefit else (LeadTunnelTimeByLeadScan, V2)
    base = [float(i > 200) for i in range(points)]
    where = [7, 9, 100, 207, 209, 300]
    rounds = 2
    exp = ScanExperiment(None)
    meas = Measurement('lead_scan', gate='B')
    ev = cls(exp, measurements=(meas,), sample_rate=rate)
    fail_round = ctx.choice('failing evaluation', [None, 0, 1])
    fail_fit = ctx.choice('failing fit', [0, 1]) if prefit and fail_round is not None else 0
    for k in range(rounds):
        low = [ctx.real('l%d_%d' % (k, i), lo=-16., hi=16.) if i in where[:3] else v for i, v in enumerate(base)]
        high = [ctx.real('h%d_%d' % (k, i), lo=-16., hi=16.) if i in where[2:] else 2 * v + 1 for i, v in enumerate(base)]
        signal = [b - a for a, b in zip(low, high)]
        true = {n: ctx.real('%s%d' % (n, k), lo=-8., hi=8.) for n in names}
        true.update(t_fall=ctx.real('t_fall%d' % k, lo=1e-9, hi=1e-6), t_rise=ctx.real('t_rise%d' % k, lo=1e-9, hi=1e-6),
                    height=ctx.real('height%d' % k, lo=.5, hi=8.), begin_rise=80e-9, begin_fall=2000e-9)
        if not prefit:
            true.update(length_lin_fall=10e-9, length_lin_rise=20e-9)
        popt = [true[n] for n in names]
        exp.data = _array(ctx, [low, high])
        fits = Fits(ctx, fail_fit if fail_round == k else None, [[1., 60e-9, 70e-9, 60e-9, 2050e-9, .5], popt] if prefit else [popt])
        del exp.seen[:]
        with fitting(fits):
            ok, r = ctx.completes('the evaluation ends', ev.evaluate)
        if not ok:
            return
        value, var = r
        ctx.claim('exactly one scan is made', len(exp.seen) == 1 and exp.seen[0][0] is meas)
        x, y = ev.raw_data
        _same(ctx, 'the signal is the difference of the two traces', y, signal)
        _same(ctx, 'the time axis has the sample rate', x, [i / rate for i in range(points)])
        for f, fx, fy, start in fits.calls:
            _same(ctx, 'the model is fitted to the measured signal', fy, signal)
        if fail_round == k:
            _failed(ctx, ev, value, var, BOTH_TIMES)
            continue
        ctx.close_map('the value is the fitted parameter', value, {'parameter_time_rise': true['t_rise'], 'parameter_time_fall': true['t_fall']})
        _fit_results(ctx, ev, names, popt)
        ctx.claim('the errors are labelled and positive', set(var.index) == set(BOTH_TIMES) and all(bool(var[p] > 0) for p in BOTH_TIMES))
