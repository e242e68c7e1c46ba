"""C23, C38: the raw data in a history and their plots.  Real evaluators evaluate scripted data; the fits (scipy) and the
drawing (matplotlib) are the environment, replays draw for real."""
import contextlib

import numpy as np
import pandas as pd

import qtune.util
from harness.common import FakeExperiment, StubSolver, make_target, series, total
from harness.gui_rig import application, import_gui
from harness.h_fit import fitting
from qtune import history as history_module
from qtune.autotuner import Autotuner
from qtune.evaluator import (AveragingEvaluator, InterDotTCByLineScan, LeadTransition, LeadTunnelTimeByLeadScan, LeadTunnelTimePrefitVersion,
                             NewLoadTime, SensingDot1D, SensingDot2D)
from qtune.experiment import Measurement
from qtune.history import History
from qtune.parameter_tuner import SubsetTuner
from symx.ctx import harness, isnan

GATES = ['a', 'b']
POINTS = 13
S_CURVE = ['offset', 'slope', 'height', 'position', 'width']
DECAY = ['offset', 'height', 'curvature']
V1 = ['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall', 'offset']
V2 = V1 + ['slope', 'offset_linear', 'length_lin_fall', 'slope_1', 'offset_linear_1', 'length_lin_rise']
KINDS = ['tunnel', 'load', 'prefit', 'lead', 'transition', 'dot1', 'dot2', 'average']


class Device(FakeExperiment):
    """Every measurement gives other data; the number of the evaluation is in the first point."""
    lab = None

    def measure(self, measurement):
        return self.lab.data(measurement)


class ScriptedDot1D(SensingDot1D):
    lab = None

    def evaluate(self):
        k = self.lab.number
        self._raw_x_data = np.array([1., 2., 3., 4.]) + k
        self._raw_y_data = np.array([[10. * k, 3., 7., 5.]])
        self.measurements[0].options['center'] = 5. * k
        self.optimal_position = self.lab.value('mark')
        return series(['dot_a'], [1.]), series(['dot_a'], [1.])

    def to_hdf5(self):
        return super().to_hdf5()


class ScriptedDot2D(SensingDot2D):
    lab = None

    def evaluate(self):
        k = self.lab.number
        self._raw_x_data = [np.array([1., 2.]) + k, np.array([10., 20., 30.])]
        self._raw_y_data = np.array([[[100. * k, 1., 2.], [3., 4., 5. + k]]])
        self._new_voltages = series(['position_a', 'position_b'], [self.lab.value('row'), self.lab.value('column')])
        return series(['plane_a', 'plane_b'], [1., 1.]), series(['plane_a', 'plane_b'], [1., 1.])

    def to_hdf5(self):
        return super().to_hdf5()


class _ScriptedLead:
    lab = None

    def evaluate(self):
        k = self.lab.number
        self._raw_x_data = np.arange(4) * 1e-6
        self._raw_y_data = np.array([100. * k, 1., 2., 4.])
        self._fit_results = self.lab.pulse(self.model, 'fit')
        self._initial_fit_arguments = self.lab.pulse(self.model, 'first')
        return series(['parameter_time_rise', 'parameter_time_fall'], [1., 1.]), series(['parameter_time_rise', 'parameter_time_fall'], [1., 1.])


class ScriptedPrefit(_ScriptedLead, LeadTunnelTimePrefitVersion):
    model = V1

    def to_hdf5(self):
        return super().to_hdf5()


class ScriptedLead(_ScriptedLead, LeadTunnelTimeByLeadScan):
    model = V2

    def to_hdf5(self):
        return super().to_hdf5()


class Lab:
    """A tuning with one group; `steps` evaluations at different voltages, all of them appended to the history."""

    def __init__(self, ctx, kinds):
        self.ctx, self.kinds, self.number = ctx, kinds, 0
        self.exp = Device({g: 0. for g in GATES})
        self.exp.lab = self
        self.evaluators = {}
        for kind in kinds:
            ev = self._make(kind)
            self.evaluators[ev.name] = ev
        names = [p for ev in self.evaluators.values() for p in ev.parameters]
        target = make_target(desired=series(names, [1e6] * len(names)), tolerance=series(names, [1.] * len(names)))
        start = series(GATES, [0., 0.])
        self.solver = StubSolver(target, start, lambda: series(GATES, [float(self.number), -1.]))
        self.auto = Autotuner(self.exp, [SubsetTuner(list(self.evaluators.values()), GATES, solver=self.solver)])
        self.history = History(None)
        self.pages = []

    def value(self, name, **kw):
        return self.ctx.real('%s_%d' % (name, self.number), **kw)

    def _make(self, kind):
        scan = Measurement('detune_scan', center=0., range=(POINTS - 1) / 4., N_points=POINTS)
        if kind == 'tunnel':
            return InterDotTCByLineScan(self.exp, measurements=(scan,))
        if kind == 'average':
            return AveragingEvaluator(InterDotTCByLineScan(self.exp, parameters=('parameter_tunnel_coupling',), measurements=(scan,)), 2)
        if kind == 'load':
            return NewLoadTime(self.exp, measurements=(Measurement('load_scan'),))
        if kind == 'transition':
            return LeadTransition(self.exp, shifting_gates=('b', 'a'), parameters=('position_a', 'position_b'), transition_width=1., charge_diagram_width=1.,
                                  measurements=[Measurement('line_scan', center=c, range=2., gate=g, N_points=8) for g, c in (('a', 0.), ('b', 100.))])
        if kind == 'dot1':
            ev = ScriptedDot1D(self.exp, sweeping_gate='a', parameters=('dot_a',), measurements=(Measurement('line_scan', center=None, range=1., gate='a', N_points=4),))
        elif kind == 'dot2':
            ev = ScriptedDot2D(self.exp, sweeping_gates=('a', 'b'), parameters=('plane_a', 'plane_b'))
        else:
            cls = ScriptedPrefit if kind == 'prefit' else ScriptedLead
            ev = cls(self.exp, measurements=(Measurement('lead_scan', gate='B'),))
        ev.lab = self
        return ev

    def data(self, measurement):
        k = float(self.number)
        if measurement.name == 'detune_scan':
            self.repetition += 1
            return np.array([[100. * k + self.repetition] + [.5 * i + float(i > POINTS // 2) for i in range(1, POINTS)]])
        if measurement.name == 'load_scan':
            return np.array([[100. * k, 4., 2., 1., 0.], [0. + k, 1. + k, 2. + k, 3. + k, 4. + k]])
        step = 3 if measurement.options['gate'] == 'a' else 5
        return np.array([100. * k] + [100. * k + 10. * float(i >= step) for i in range(1, 8)])

    def curve(self, names):
        """The results of a fit: symbolic."""
        lows = dict(height=.5, width=.25, curvature=2.)
        return [self.value('%s_%s%d' % (names[-1], n, self.fits), lo=lows.get(n, -8.), hi=8.) for n in names]

    def pulse(self, names, what):
        r = pd.Series({n: self.value('%s_%s' % (what, n), lo=-8., hi=8.) for n in names}, dtype=object if self.ctx.symbolic else float)
        r['t_fall'], r['t_rise'] = 1e-6, 2e-6
        r['begin_rise'], r['begin_fall'] = .5e-6, 2.5e-6
        if 'length_lin_rise' in names:
            r['length_lin_rise'], r['length_lin_fall'] = 1e-6, .25e-6
        return r

    def evaluate(self):
        """Until the next evaluation was done and appended."""
        self.number += 1
        self.repetition = self.fits = 0
        with fitting(self.fit):
            while len(self.solver.updates) < self.number:
                self.auto.iterate()
                if len(self.solver.updates) == self.number:
                    self.pages.append({n: self._page(n) for n in self.evaluators})
                self.history.append_autotuner(self.auto, 'file')

    def fit(self, f, xdata, ydata, p0=None, **kw):
        self.fits += 1
        if len(p0) == len(S_CURVE):         # the first of two fits is only the start of the second one
            popt = self.curve(S_CURVE) if self.fits % 2 == 0 else [0., .5, 1., .25, 1.]
        else:
            popt = self.curve(DECAY)
        return np.array(popt, dtype=object if self.ctx.symbolic else float), np.eye(len(popt))

    def _page(self, name):
        """What the evaluator holds now, copied."""
        ev = self.evaluators[name]
        page = dict(x=_copy(ev._raw_x_data), y=_copy(ev._raw_y_data))
        inner = getattr(ev, '_evaluator', None)
        if inner is not None:
            page['inner'] = dict(x=_copy(inner._raw_x_data), y=_copy(inner._raw_y_data), fit=_copy(inner.fit_results), first=_copy(inner.initial_fit_arguments),
                                 options=[_copy(m.options) for m in inner.measurements])
            return page
        page['options'] = [_copy(m.options) for m in ev.measurements]
        if hasattr(ev, 'fit_results'):
            page.update(fit=_copy(ev.fit_results), first=_copy(ev.initial_fit_arguments))
        for key, attr in (('mark', 'optimal_position'), ('marks', 'transition_positions'), ('cross', '_new_voltages'), ('between', 'intermediate_fit_arguments')):
            if hasattr(ev, attr):
                page[key] = _copy(getattr(ev, attr))
        return page


def _copy(x):
    """The numbers in x as they are now."""
    if isinstance(x, pd.Series):
        return {k: x[k] for k in x.index}
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) and x.ndim:
        return [_copy(v) for v in x]
    if isinstance(x, (list, tuple)):
        return [_copy(v) for v in x]
    return x


def _equal(ctx, label, got, want):
    if isinstance(want, dict):
        ok = isinstance(got, dict) and set(got) == set(want)
        ctx.claim(label, ok)
        for k in want if ok else ():
            _equal(ctx, label, got[k], want[k])
    elif isinstance(want, list):
        ok = isinstance(got, list) and len(got) == len(want)
        ctx.claim(label, ok)
        for g, w in zip(got, want) if ok else ():
            _equal(ctx, label, g, w)
    elif want is None or isinstance(want, (str, bool)):
        ctx.claim(label, got == want)
    else:
        ctx.claim(label, got is not None and not isinstance(got, (str, dict, list)))
        ctx.close(label, got, want)


@harness('C23', quick=[dict(kinds=['tunnel', 'load'], entries=3), dict(kinds=['average', 'transition', 'dot1'], entries=2)],
         thorough=[dict(kinds=['tunnel', 'load', 'prefit', 'dot2'], entries=4), dict(kinds=['average', 'transition', 'lead', 'dot1'], entries=4)],
         expect=['the raw data of an entry never change', 'the fit of an entry never changes'])
def raw_data(ctx, kinds, entries):
    """The evaluators go on, the data of the earlier entries stay."""
    lab = Lab(ctx, kinds)
    for _ in range(entries):
        lab.evaluate()
    data = lab.history.evaluator_data
    ctx.claim('one entry per evaluation', len(data) == entries)
    for k, page in enumerate(lab.pages):
        for name, want in page.items():
            got = data[name].iloc[k]
            _equal(ctx, 'the raw data of an entry never change', _copy([got['raw_x_data'], got['raw_y_data']]), [want['x'], want['y']])
            if 'inner' in want:
                want, got = want['inner'], got['evaluator'].to_hdf5()
                _equal(ctx, 'the raw data of an entry never change', _copy([got['raw_x_data'], got['raw_y_data']]), [want['x'], want['y']])
            for key, field in (('fit', 'fit_results'), ('first', 'initial_fit_arguments'), ('mark', 'optimal_position'), ('marks', 'transition_positions'),
                               ('cross', 'new_voltages'), ('between', 'intermediate_fit_arguments')):
                if key in want:
                    _equal(ctx, 'the fit of an entry never changes', _copy(got[field]), want[key])
            _equal(ctx, 'the measurements of an entry never change', [_copy(m.options) for m in got['measurements']], want['options'])


# ---- C38: plots of the raw data -----------------------------------------------------------------------------------
class Axis:
    """Records what is drawn."""

    def __init__(self):
        self.clear()

    def clear(self, *args, **kw):
        self.curves, self.lines, self.images, self.title = [], [], [], ''

    cla = clear

    def plot(self, x, y, *args, label=None, **kw):
        self.curves.append((label, list(x), list(y)))

    def scatter(self, x, y, *args, label=None, **kw):
        self.curves.append((label, list(x), list(y)))

    def vlines(self, x, ymin, ymax, *args, **kw):
        for v in (x if isinstance(x, (list, tuple, np.ndarray)) else [x]):
            self.lines.append(('v', v, ymin, ymax))

    def hlines(self, y, xmin, xmax, *args, **kw):
        for v in (y if isinstance(y, (list, tuple, np.ndarray)) else [y]):
            self.lines.append(('h', v, xmin, xmax))

    def pcolormesh(self, x, y, c, *args, **kw):
        x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
        rows, cols = np.shape(c)
        x = x if x.ndim == 2 else np.array([list(x)] * rows, dtype=object)
        y = y if y.ndim == 2 else np.array([[v] * cols for v in y], dtype=object)
        self.images.append([(x[i][j], y[i][j], c[i][j]) for i in range(rows) for j in range(cols)])

    def set_title(self, text, *args, **kw):
        self.title = text

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *args, **kw: None


class Figure:
    def __init__(self):
        self.axes = []

    def clear(self, *args, **kw):
        self.axes = []

    clf = clear

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        self.axes = [Axis() for _ in range(nrows * ncols)]
        out = np.empty((nrows, ncols), dtype=object)
        out.ravel()[:] = self.axes
        return out if not squeeze else (self.axes[0] if out.size == 1 else out.squeeze())

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *args, **kw: None


class Pyplot:
    """matplotlib.pyplot without matplotlib."""

    def __init__(self):
        self.current = Axis()

    def gca(self):
        return self.current

    def subplots(self, nrows=1, ncols=1, **kw):
        fig = Figure()
        return fig, fig.subplots(nrows, ncols, **{k: v for k, v in kw.items() if k == 'squeeze'})

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *args, **kw: None


@contextlib.contextmanager
def drawing(ctx):
    """Symbolically on recorders; in replays on real figures without a screen."""
    if not ctx.symbolic:
        import matplotlib
        matplotlib.use('Agg', force=True)
        import matplotlib.pyplot as plt
        try:
            yield plt
        finally:
            plt.close('all')
        return
    plt = Pyplot()
    modules = [m for m in (qtune.util, history_module) if hasattr(m, 'plt')]
    saved = [m.plt for m in modules]
    for m in modules:
        m.plt = plt
    try:
        yield plt
    finally:
        for m, v in zip(modules, saved):
            m.plt = v


def _axes(ctx, plt, n):
    return [Axis() for _ in range(n)] if ctx.symbolic else list(plt.figure().subplots(nrows=n, squeeze=False).ravel())


def _floats(values):
    return [float(v) for v in np.ma.filled(np.ma.asarray(values, dtype=float), np.nan)]


def _read(ax):
    """(curves, lines, images, title) of an axis."""
    if isinstance(ax, Axis):
        return ax.curves, ax.lines, ax.images, ax.title
    from matplotlib.collections import LineCollection, PathCollection, QuadMesh
    curves = [(c.get_label(), _floats(c.get_xdata()), _floats(c.get_ydata())) for c in ax.lines]
    lines, images = [], []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for (x0, y0), (x1, y1) in c.get_segments():
                if x0 == x1 or isnan(x0):
                    lines.append(('v', x0, min(y0, y1), max(y0, y1)))
                else:
                    lines.append(('h', y0, min(x0, x1), max(x0, x1)))
        elif isinstance(c, QuadMesh):
            xy = c.get_coordinates()
            middle = .25 * (xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:] + xy[1:, 1:])
            images.append([(float(p[0]), float(p[1]), v) for p, v in zip(middle.reshape(-1, 2), _floats(np.ma.ravel(c.get_array())))])
        elif isinstance(c, PathCollection):
            xy = np.asarray(c.get_offsets())
            curves.append((c.get_label(), _floats(xy[:, 0]), _floats(xy[:, 1])))
    return curves, lines, images, ax.get_title()


def _mean(rows):
    """The mean of repetitions, without those that failed."""
    out = []
    for column in zip(*rows):
        valid = [v for v in column if not isnan(v)]
        out.append(total(valid) / len(valid) if valid else np.nan)
    return out


def _signal(y):
    while isinstance(y[0], list) and len(y) == 1:
        y = y[0]
    return _mean(y) if isinstance(y[0], list) else y


def _model(ctx, names, x, args):
    if names == S_CURVE:
        return [args['offset'] + args['slope'] * v + .5 * args['height'] * (1 + np.tanh((v - args['position']) / args['width'])) for v in x]
    if names == DECAY:
        return list(args['offset'] + args['height'] * np.exp(np.array([-1. * v / args['curvature'] for v in x])))
    f = evaluator_f(names)
    return list(f(np.array(x), **args))


def evaluator_f(names):
    from qtune.evaluator import func_lead_times_v1, func_lead_times_v2
    return func_lead_times_v1 if names == V1 else func_lead_times_v2


def _check_curves(ctx, ax, x, y, models=()):
    """The points and one curve per model, whatever their order."""
    curves, lines, images, _ = _read(ax)
    ctx.claim('exactly the data and their fits are drawn', len(curves) == 1 + len(models))
    points = [c for c in curves if c[0] == 'Raw Data'] if len({c[0] for c in curves}) == len(curves) else []
    points = points or curves[:1]
    ctx.claim('the raw data are drawn', len(points) == 1)
    for c in points:
        ctx.close_seq('the raw data are drawn at their positions', c[1], x)
        ctx.close_seq('the raw data are drawn', c[2], y)
    for c, want in zip([c for c in curves if c is not points[0]], models):
        ctx.close_seq('the fits are drawn at the positions of the data', c[1], x)
        ctx.close_seq('the fits are those of the data', c[2], want)


def _check_mark(ctx, ax, mark, y):
    _, lines, images, _ = _read(ax)
    ctx.claim('one mark is drawn', len(lines) == 1 and lines[0][0] == 'v' and not images)
    if len(lines) == 1 and not isnan(mark):
        ctx.close('the mark is at its position', lines[0][1], mark)
        low, high = lines[0][2:]
        for v in y:
            if not isnan(v):
                ctx.claim('the mark covers the data', ctx.And(ctx.le(low, v), ctx.ge(high, v)))


def _check_image(ctx, ax, x, y, row, column):
    """x = (positions of the rows, positions of the columns)"""
    _, lines, images, _ = _read(ax)
    ctx.claim('one image is drawn', len(images) == 1)
    if len(images) == 1:
        want = [(c, r, y[i][j]) for i, r in enumerate(x[0]) for j, c in enumerate(x[1])]
        for k, label in enumerate(['the columns are at their positions', 'the rows are at their positions', 'the values of the image are the data']):
            ctx.close_seq(label, [p[k] for p in images[0]], [p[k] for p in want])
    ctx.claim('two marks are drawn', sorted(m[0] for m in lines) == ['h', 'v'])
    for kind, at, _, _ in lines:
        ctx.close('the marks cross at the position', at, row if kind == 'h' else column)


def _check_entry(ctx, kind, name, page, axes):
    """What is drawn on the axes of one evaluator is what it had found."""
    ctx.reach('an entry is drawn')
    if kind == 'average':
        page = page['inner']
    if kind == 'transition':
        marks = list(page['marks'].items())
        for i, ax in enumerate(axes):
            _check_curves(ctx, ax, page['x'][i], page['y'][i])
            _check_mark(ctx, ax, marks[i][1], page['y'][i])
            if name is not None:
                ctx.claim('the axis is named after what it shows', _read(ax)[3] == marks[i][0])
        return
    ax = axes[0]
    if kind == 'dot2':
        return _check_image(ctx, ax, page['x'], page['y'][0], page['cross']['position_a'], page['cross']['position_b'])
    y = _signal(page['y'])
    if kind == 'dot1':
        _check_curves(ctx, ax, page['x'], y)
        return _check_mark(ctx, ax, page['mark'], y)
    names = {'load': DECAY, 'prefit': V1, 'lead': V2}.get(kind, S_CURVE)
    _check_curves(ctx, ax, page['x'], y, [_model(ctx, names, page['x'], page[key]) for key in ('fit', 'first')])


ROWS = {'transition': 2}


def _alias(lab):
    """The scripted evaluators have the names of the real ones."""
    return {ev.name: kind for kind, ev in zip(lab.kinds, lab.evaluators.values())}


@harness('C38', quick=[dict(kinds=[k]) for k in KINDS], thorough=[dict(kinds=[k], entries=3) for k in KINDS],
         expect=['an entry is drawn'])
def single(ctx, kinds, entries=2):
    """One evaluator in any entry, on one axis or several ones."""
    lab = Lab(ctx, kinds)
    for _ in range(entries):
        lab.evaluate()
    name, kind = next(iter(_alias(lab).items()))
    k = ctx.choice('entry', list(range(entries)))
    rows = ROWS.get(kind, 1)
    with drawing(ctx) as plt:
        axes = _axes(ctx, plt, rows)
        form = ctx.choice('axes', ['list', 'array', 'tuple', 'one'][:3 if rows > 1 else 4])
        ax = axes[0] if form == 'one' else tuple(axes) if form == 'tuple' else list(axes)
        if form == 'array':
            ax = np.empty(rows, dtype=object)
            ax[:] = axes
        ok, _ = ctx.completes('the raw data can be drawn', lambda: lab.history.plot_single_evaluator_data(ax, name, k))
        if ok:
            _check_entry(ctx, kind, name, lab.pages[k][name], axes)


@harness('C38', quick=[dict(kinds=['tunnel', 'transition', 'dot1'], entries=2), dict(kinds=['average', 'dot2'], entries=3)],
         thorough=[dict(kinds=['tunnel', 'transition', 'dot1', 'load', 'prefit'], entries=3), dict(kinds=['average', 'dot2', 'lead', 'transition'], entries=3)],
         expect=['an entry is drawn'])
def overview(ctx, kinds, entries):
    """Figures of several evaluators in several entries."""
    lab = Lab(ctx, kinds)
    for _ in range(entries):
        lab.evaluate()
    alias = _alias(lab)
    start = ctx.choice('start', list(range(entries)))
    end = ctx.choice('end', [None] + list(range(start + 1, entries + 1)))
    names = ctx.choice('names', [None] + [list(alias)[::-1]] + [[n] for n in alias] + [['unknown', 'also unknown', list(alias)[-1]]])
    given = None if names is None else list(names)
    shown = [n for n in (sorted(alias) if names is None else names) if n in alias]
    with drawing(ctx):
        ok, r = ctx.completes('the raw data can be drawn', lambda: lab.history.plot_evaluator_data(start=start, end=end, evaluator_names=given))
        if not ok:
            return
        ctx.claim('the names of the caller stay', given == names)
        figures, axes = r
        numbers = list(range(start, start + 1 if end is None else end))
        ctx.claim('one figure per entry', len(figures) == len(axes) == len(numbers))
        for k, all_axes in zip(numbers, axes):
            all_axes = list(np.ravel(all_axes))
            used = [ax for ax in all_axes if any(_read(ax)[:3])]
            ctx.claim('one axis per measurement', len(used) == sum(ROWS.get(alias[n], 1) for n in shown))
            for n in shown if names is not None else sorted(shown, key=[_read(ax)[3] for ax in used].index):
                mine = [ax for ax in used if _read(ax)[3] == n]
                ctx.claim('every evaluator has its axes', len(mine) == ROWS.get(alias[n], 1))
                if len(mine) == ROWS.get(alias[n], 1):
                    _check_entry(ctx, alias[n], None, lab.pages[k][n], mine)


@harness('C38', quick=[dict(kind=k) for k in ('load', 'transition', 'average')], thorough=[dict(kind=k) for k in KINDS],
         expect=['the window shows a recorded entry'])
def window(ctx, kind):
    """The window of the interface, opened with a number and refreshed when the tuning went on."""
    application()
    g = import_gui()
    lab = Lab(ctx, [kind])
    entries = 3
    for _ in range(entries):
        lab.evaluate()
    name = next(iter(lab.evaluators))
    number = ctx.choice('number', [1, 2, 3])
    figure = Figure()
    base = g.QTuneMatplotWidget
    saved = {n: getattr(base, n) for n in ('getFigure', 'draw')}
    with drawing(ctx):
        try:
            if ctx.symbolic:
                base.getFigure, base.draw = lambda self: figure, lambda self: None
            w = g.MeasurementDataWidget(name, number, lab.history)
            try:
                first = None
                for n in range(2):
                    if n:
                        lab.evaluate()
                        w.refresh()
                    axes = [ax for ax in w.getFigure().axes if any(_read(ax)[:3])][:ROWS.get(kind, 1)]
                    ctx.claim('one axis per measurement', len(axes) == ROWS.get(kind, 1))
                    if not axes:
                        return
                    shown = _tags(axes[0])
                    page = [p[name] for p in lab.pages if _tag(p[name]) in shown]
                    ctx.claim('the window shows a recorded entry', len(page) == 1)
                    if len(page) != 1:
                        return
                    _check_entry(ctx, kind, name, page[0], axes)
                    first = first or page[0]
                    ctx.claim('a number stands for one entry', _tag(page[0]) == _tag(first))
            finally:
                w.deleteLater()
                application().sendPostedEvents(None, 52)
        finally:
            for n, f in saved.items():
                setattr(base, n, f)


def _tag(page):
    y = page.get('inner', page)['y']
    while isinstance(y, list):
        y = y[0]
    return float(y)


def _tags(ax):
    curves, _, images, _ = _read(ax)
    return [float(v) for v in [c[2][0] for c in curves] + [i[0][2] for i in images] if isinstance(v, (int, float, np.number))]


@harness('C38', quick=[dict(points=3, repetitions=1), dict(points=2, repetitions=3)], thorough=[dict(points=4, repetitions=1), dict(points=3, repetitions=3)],
         expect=['the raw data are drawn'])
def functions(ctx, points, repetitions):
    """The functions that draw, with any data."""
    what = ctx.choice('plot', ['fit', 'mark', 'image'])
    where = ctx.flag('on the present axis')
    if what == 'image':
        rows, cols = 2, points
        y = [[ctx.real('y%d_%d' % (i, j)) for j in range(cols)] for i in range(rows)]
        x = [[1., 2.], [10. * (j + 1) for j in range(cols)]]
    else:
        y = [[ctx.maybe_nan('y%d_%d' % (r, i)) if i == 0 and what == 'fit' else ctx.real('y%d_%d' % (r, i)) for i in range(points)] for r in range(repetitions)]
        x = [ctx.real('x%d' % i) for i in range(points)] if ctx.flag('positions') else None
    array = np.array(y, dtype=object if ctx.symbolic else float)
    if what != 'image' and repetitions == 1 and ctx.flag('flat'):
        array = array[0]
    before = [v for v in array.ravel()]
    with drawing(ctx) as plt:
        ax = plt.gca() if where else _axes(ctx, plt, 1)[0]
        kw = {} if where else dict(ax=ax)
        axis = list(map(float, range(points))) if x is None else x
        xa = None if x is None else np.array(x, dtype=object if ctx.symbolic else float) if what != 'image' else [np.array(v) for v in x]
        if what == 'image':
            mark = series(['r', 'c'], [ctx.real('row'), ctx.real('column')])
            r = qtune.util.plot_raw_data_2_dim_marks(array, xa, mark, **kw)
            _check_image(ctx, ax, x, y, mark['r'], mark['c'])
        elif what == 'mark':
            mark = ctx.real('mark')
            r = qtune.util.plot_raw_data_vertical_marks(array, xa, mark, **kw)
            _check_curves(ctx, ax, axis, _mean(y))
            _check_mark(ctx, ax, mark, _mean(y))
        else:
            kind = ctx.choice('arguments', ['none', 'fit', 'first', 'both'])
            args = {n: pd.Series({'m': ctx.real('m_' + n), 't': ctx.real('t_' + n)}) for n in ('fit', 'first')}
            used = [n for n in ('fit', 'first') if kind in (n, 'both')]
            if used and ctx.flag('dicts'):
                args = {n: dict(v) for n, v in args.items()}
            r = qtune.util.plot_raw_data_fit(array, xa, lambda x, m, t: m * np.asarray(x) + t, args['fit'] if 'fit' in used else None,
                                             args['first'] if 'first' in used else None, **kw)
            _check_curves(ctx, ax, axis, _mean(y), [[args[n]['m'] * v + args[n]['t'] for v in axis] for n in used])
        ctx.claim('the axis is handed out', r is ax)
    ctx.close_seq('the data stay', list(array.ravel()), before)
