"""C36: the plots of a history.  Symbolic numbers are drawn by recorders in place of pyqtgraph and matplotlib; the replays
read what the real libraries drew."""
import contextlib

import numpy as np
import pandas as pd

from harness.common import FakeExperiment, make_target, series
from harness.gui_rig import application, import_gui
from harness.h_history import FreeNewton, NotedEstimator, NotedEvaluator
from qtune import history as history_module
from qtune.autotuner import Autotuner
from qtune.history import History
from qtune.parameter_tuner import SensingDotTuner, SubsetTuner
from qtune.solver import ForwardingSolver
from symx.ctx import harness, isnan

GATES = ['b', 'a']
TAGS = {'b': 11., 'a': 12., 'p': 21., 'current_signal': 22., 'sig': 23., ('p', 'a'): 31., ('p', 'b'): 32., ('current_signal', 'a'): 33., ('current_signal', 'b'): 34.}
GRADED = ['p', 'current_signal']           # one with and one without a description
UNGRADED = ['sig']


class Tuning:
    """A tuning that goes on as long as it is asked; the first entry holds the tags, by which the curves are recognised."""

    def __init__(self, ctx, graded=GRADED):
        self.ctx, self.graded = ctx, graded
        self.names = UNGRADED + graded
        self.rows, self.row, self.moves, self.pending = [], None, 0, False
        self.numbers = {}
        self.exp = exp = FakeExperiment({g: TAGS[g] for g in GATES})
        at = series(GATES, [TAGS[g] for g in GATES])
        target = make_target(desired=series(graded, [0.] * len(graded)), tolerance=series(graded, [1.] * len(graded)))
        self.estimators = [NotedEstimator(at.copy(), p, 0, self._number) for p in target.index]
        solver = FreeNewton(target, self.estimators, at.copy())
        solver.source = self._next
        dot = make_target(minimum=series(['sig'], [1.]), cost_threshold=series(['sig'], [0.]))
        self.auto = Autotuner(exp, [
            SensingDotTuner([NotedEvaluator(exp, parameters=('sig',), name='dot', source=self._measure)], [], [GATES[0]],
                            solver=ForwardingSolver(dot, series(['sig'], [GATES[0]]), at[GATES[:1]]), last_voltage=at.copy()),
            SubsetTuner([NotedEvaluator(exp, parameters=tuple(graded), name='pair', source=self._measure)], GATES, solver=solver)])
        self.history = History(None)
        self._turn()

    @property
    def entry(self):
        return max(0, len(self.rows) - 1)

    def _turn(self):
        self.row = dict(self.exp.v)

    def _next(self):
        self.moves += 1
        return series(GATES, [self.ctx.real('v%d_%s' % (self.moves, GATES[0])), 100. * self.moves])

    def _value(self, key, name, **kw):
        if len(self.rows) <= 1:
            return TAGS[key]
        return self.ctx.real('%s_%d' % (name, self.entry), **kw)

    def _measure(self, ev):
        par, var = {}, {}
        for p in ev.parameters:
            par[p] = 5. + self.entry if p == 'sig' and self.entry else self._value(p, p)
            if p != 'sig' and self.entry:
                self.ctx.require(par[p] > 2.)
            var[p] = self._value(p, 'var_' + p, lo=0) if p != 'sig' else 4.
            self.row[p], self.row[p, 'var'] = par[p], var[p]
        ev._raw_x_data, ev._raw_y_data = (np.array([1.]),), (np.array([1.]),)
        return series(par, par.values()), series(var, var.values())

    def _number(self, kind, p, k, gates):
        key = kind, p, self.entry
        if key not in self.numbers:
            if kind == 'grad':
                self.numbers[key] = pd.Series([self._value((p, g), 'd%s_%s' % (p, g)) if g == 'a' or not self.entry else 7. for g in gates], index=gates)
            else:
                c = np.array([[2., .25], [.25, 3. + self.entry]], dtype=object)
                c[0, 0] = self._value((p, 'b'), 'c%s' % p, lo=0)
                self.numbers[key] = pd.DataFrame(c if self.ctx.symbolic else c.astype(float), index=gates, columns=gates)
        return self.numbers[key]

    def step(self):
        evaluating = self.auto.voltages_to_set is None and not self.auto.current_tuner_status
        index = self.auto.current_tuner_index
        if evaluating and (self.pending or not self.rows):
            if self.rows:
                self._turn()
            self.rows.append(self.row)
            self.pending = False
        sets = len(self.exp.sets)
        self.auto.iterate()
        self.pending = self.pending or len(self.exp.sets) > sets
        if evaluating and (index == 1 or len(self.rows) == 1):
            for e in self.estimators:
                for g in GATES:
                    self.row[e.parameter, g] = e.estimate()[g]
                    self.row[e.parameter, g, 'var'] = e.covariance().loc[g, g]
        self.history.append_autotuner(self.auto, 'file')

    def first(self):
        """Until the first entry is complete."""
        while 'p' not in self.row:
            self.step()

    def column(self, key):
        return [row.get(key, np.nan) for row in self.rows]

    def variance(self, key):
        return self.column(tuple(key) + ('var',) if isinstance(key, tuple) else (key, 'var'))


# ---- recorders ---------------------------------------------------------------------------------------------------
def _data(args, kw):
    args = list(args)
    y = kw['y'] if 'y' in kw else args[-1]
    x = kw.get('x', args[0] if len(args) > 1 else np.arange(len(y)))
    return list(x), list(y)


class Curve:
    def __init__(self, *args, name=None, **kw):
        self.name = name
        self.setData(*args, **kw)

    def setData(self, *args, **kw):
        self.x, self.y = _data(args, kw)


class Bars:
    def __init__(self, **kw):
        self.opts = kw

    def setData(self, **kw):
        self.opts = dict(self.opts, **kw)

    setOpts = setData


class Legend:
    def __init__(self):
        self.names = []

    def removeItem(self, name):
        name = getattr(name, 'name', name)
        if name in self.names:
            self.names.remove(name)


class PlotItem:
    def __init__(self):
        self.items, self.legend = [], Legend()

    def plot(self, *args, **kw):
        c = Curve(*args, **kw)
        self.addItem(c)
        return c

    def addItem(self, item, *args, **kw):
        self.items.append(item)
        if getattr(item, 'name', None):
            self.legend.names.append(item.name)

    def removeItem(self, item):
        if item in self.items:
            self.items.remove(item)
            self.legend.removeItem(item)

    def clear(self):
        for i in list(self.items):
            self.removeItem(i)

    def addLegend(self, *args, **kw):
        return self.legend


@contextlib.contextmanager
def _recorded(ctx, g):
    if not ctx.symbolic:
        yield
        return
    real, bars = g.pg.PlotWidget, g.pg.ErrorBarItem

    class Canvas(real):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw)
            self.rec = PlotItem()
            for n in ('addItem', 'removeItem', 'clear', 'plot', 'addLegend'):
                setattr(self, n, getattr(self.rec, n))

        def getPlotItem(self):
            return self.rec

    g.pg.PlotWidget, g.pg.ErrorBarItem = Canvas, Bars
    try:
        yield
    finally:
        g.pg.PlotWidget, g.pg.ErrorBarItem = real, bars


def _drawn(ctx, g, organizer):
    """Curves (x, y) and bars (x, y, half above, half below) and the names in the legend."""
    item = organizer.plot.getPlotItem()
    curves, bars = [], []
    for i in item.items:
        if isinstance(i, Curve):
            curves.append((i.name, i.x, i.y))
        elif isinstance(i, Bars) or isinstance(i, g.pg.ErrorBarItem):
            o = i.opts
            h = o.get('height')
            top, bottom = o.get('top'), o.get('bottom')
            if h is not None:
                top = bottom = [.5 * v for v in h]
            bars.append((list(o['x']), list(o['y']), list(top), list(bottom)))
        else:
            x, y = i.getData()
            curves.append((i.name(), list(x), list(y)))
    legend = item.legend.names if ctx.symbolic else [label.text for _, label in item.legend.items]
    return curves, bars, legend


def _positions(ctx, label, x, n):
    ctx.claim(label, [float(v) for v in x] == [float(k) for k in range(n)])


def _check_window(ctx, g, t, organizer, selected):
    """selected: quantity -> '', 'plot' or 'plot + error'"""
    curves, bars, legend = _drawn(ctx, g, organizer)
    plotted = [k for k, mode in selected.items() if mode]
    errors = [k for k, mode in selected.items() if mode == 'plot + error']
    ctx.claim('exactly the selected quantities are drawn', sorted(c[2][0] for c in curves) == sorted(TAGS[k] for k in plotted))
    ctx.claim('exactly the selected errors are drawn', sorted(b[1][0] for b in bars) == sorted(TAGS[k] for k in errors))
    ctx.claim('the legend names the drawn quantities', sorted(legend) == sorted(c[0] for c in curves) and len(set(legend)) == len(legend))
    key = {v: k for k, v in TAGS.items()}
    for name, x, y in curves:
        k = key.get(y[0])
        if k in plotted:
            ctx.claim('the legend names the drawn quantities', all(part in name for part in (k if isinstance(k, tuple) else (k,))))
            ctx.close_seq('the recorded values are drawn', y, t.column(k))
            _positions(ctx, 'a value is drawn at its number', x, len(t.rows))
    for x, y, top, bottom in bars:
        k = key.get(y[0])
        if k in errors:
            ctx.close_seq('the bars are at the values', y, t.column(k))
            _positions(ctx, 'a bar is drawn at its number', x, len(t.rows))
            for half in (top, bottom):
                ctx.claim('every value has a bar', len(half) == len(t.rows))
                for h, v in zip(half, t.variance(k)):
                    ctx.close('the bars are one standard deviation', h if isnan(h) else h * h, v)
                    if not isnan(h):
                        ctx.claim('the bars are one standard deviation', h >= 0)


ACTIONS = [('gate', 'a'), ('param', 'p', ''), ('param', 'p', 'plot'), ('param', 'p', 'plot + error'), ('param', 'sig', 'plot + error'),
           ('all', 'p', ''), ('all', 'p', 'plot'), ('all', 'p', 'plot + error'), ('entry', 'p', 'a', ''), ('entry', 'p', 'b', 'plot + error'), ('record',)]


@harness('C36', quick=[dict(actions=2)], thorough=[dict(actions=3)], expect=['the recorded values are drawn', 'the bars are one standard deviation'],
         max_paths=20000)
def plot_window(ctx, actions):
    """A sequence of selections, while the tuning goes on."""
    application()
    g = import_gui()
    t = Tuning(ctx)
    t.first()
    with _recorded(ctx, g):
        w = g.PlotOrganizer(t.history)
        try:
            gates, params, grads = w.parameter.children()
            selected = {k: '' for k in TAGS}
            if ctx.flag('everything is selected'):
                for k in GATES:
                    gates.child(k).setValue(True)
                    selected[k] = 'plot'
                for p in t.names:
                    params.child(p).setValue('plot + error')
                    selected[p] = 'plot + error'
                for p in t.graded:
                    grads.child(p).setValue('plot + error')
                    for k in GATES:
                        selected[p, k] = 'plot + error'
                _check_window(ctx, g, t, w, selected)
            for n in range(actions):
                a = ctx.choice('action %d' % n, ACTIONS)
                if a[0] == 'gate':
                    selected[a[1]] = '' if selected[a[1]] else 'plot'
                    gates.child(a[1]).setValue(bool(selected[a[1]]))
                elif a[0] == 'param':
                    selected[a[1]] = a[2]
                    params.child(a[1]).setValue(a[2])
                elif a[0] == 'all':
                    if grads.child(a[1]).value() != a[2]:
                        for k in GATES:
                            selected[a[1], k] = a[2]
                    grads.child(a[1]).setValue(a[2])
                elif a[0] == 'entry':
                    selected[a[1], a[2]] = a[3]
                    grads.child(a[1]).child(a[2]).setValue(a[3])
                else:
                    t.step()
                    t.step()
                    w.refresh()
                _check_window(ctx, g, t, w, selected)
        finally:
            w.deleteLater()
            application().sendPostedEvents(None, 52)


# ---- matplotlib --------------------------------------------------------------------------------------------------
class Axis:
    def __init__(self):
        self.clear()

    def clear(self):
        self.drawn, self.names, self.title, self.ylabel, self.xlabel = [], None, '', '', ''

    cla = clear

    def plot(self, *args, **kw):
        frame = args[-1]
        if isinstance(frame, pd.DataFrame):
            for c in frame.columns:
                self.draw(None, frame[c], None)
        else:
            self.draw(kw.get('label'), frame, None)

    def errorbar(self, x, y, yerr=None, label=None, **kw):
        self.draw(label, y, yerr)

    def draw(self, label, y, half):
        self.drawn.append((label, list(y), None if half is None else list(half)))

    def legend(self, names=None, *args, **kw):
        if names is not None:
            self.names = list(names)

    def set_title(self, text, *args, **kw):
        self.title = text

    def set_xlabel(self, text, *args, **kw):
        self.xlabel = text

    def set_ylabel(self, text, *args, **kw):
        self.ylabel = text

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *args, **kw: None


class Figure:
    def __init__(self):
        self.axes = []

    def clear(self, *args, **kw):
        self.axes = []

    clf = clear

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        self.axes = [Axis() for _ in range(nrows * ncols)]
        out = np.empty((nrows, ncols), dtype=object)
        out.ravel()[:] = self.axes
        return out if not squeeze else (self.axes[0] if out.size == 1 else out.squeeze())

    def tight_layout(self, *args, **kw):
        pass


def _subplots(*args, **kw):
    fig = Figure()
    return fig, fig.subplots(*args, **{k: v for k, v in kw.items() if k in ('nrows', 'ncols', 'squeeze')})


class Drawing:
    """The plot method of a frame."""

    def __init__(self, frame):
        self.frame = frame if isinstance(frame, pd.DataFrame) else frame.to_frame()

    def __call__(self, subplots=False, yerr=None, ax=None, **kw):
        columns = list(self.frame.columns)
        if ax is None:
            ax = Figure().subplots(nrows=len(columns) if subplots else 1)
        axes = list(np.atleast_1d(np.asarray(ax, dtype=object)).ravel())
        if subplots:
            assert len(axes) == len(columns)
        for i, c in enumerate(columns):
            half = None
            if isinstance(yerr, (pd.DataFrame, dict)) and c in yerr:
                half = yerr[c]
            elif isinstance(yerr, pd.Series):
                half = yerr
            if isinstance(half, pd.Series):
                half = half.reindex(self.frame.index)
            (axes[i] if subplots else axes[0]).draw(c, self.frame[c], half)
        return np.array(axes, dtype=object) if subplots else axes[0]

    def line(self, *args, **kw):
        return self(*args, **kw)


@contextlib.contextmanager
def _drawing(ctx):
    if not ctx.symbolic:
        import matplotlib
        matplotlib.use('Agg', force=True)
        try:
            yield
        finally:
            history_module.plt.close('all')
        return
    plt, frame, ser = history_module.plt.subplots, pd.DataFrame.plot, pd.Series.plot
    history_module.plt.subplots, pd.DataFrame.plot, pd.Series.plot = _subplots, property(Drawing), property(Drawing)
    try:
        yield
    finally:
        history_module.plt.subplots, pd.DataFrame.plot, pd.Series.plot = plt, frame, ser


def _read_axis(ax, n):
    """[(label, values, half lengths of the bars or None)]"""
    if isinstance(ax, Axis):
        out = list(ax.drawn)
        if ax.names is not None:
            out = [(name, y, h) for name, (_, y, h) in zip(ax.names, out)]
        return out
    out = []
    bars = {c.lines[0]: c for c in ax.containers}
    legend = ax.get_legend()
    handles, labels = ax.get_legend_handles_labels()
    named = {(h.lines[0] if hasattr(h, 'lines') else h): label for h, label in zip(handles, labels)}
    texts = [t.get_text() for t in legend.get_texts()] if legend else []
    lines = [line for line in ax.lines if len(line.get_xdata())]
    if len(texts) == len(lines) and any(line not in named or named[line].startswith('_') for line in lines):
        named = dict(zip(lines, texts))
    for line in lines:
        if any(line in c.lines[1] for c in ax.containers):       # the caps of bars
            continue
        y = np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan)
        half = None
        if line in bars:
            half = [np.nan] * n
            for seg in bars[line].lines[2][0].get_segments():
                if len(seg) == 2 and not np.isnan(seg).any():
                    half[int(round(seg[0][0]))] = .5 * (seg[1][1] - seg[0][1])
        out.append((named.get(line, line.get_label()), list(y), half))
    return out


def _check_drawing(ctx, label, t, got, key, error):
    name, y, half = got
    ctx.close_seq(label, y, t.column(key))
    ctx.claim('errors are drawn if they are asked for', (half is not None) == error)
    if error and half is not None:
        for h, v, value in zip(half, t.variance(key), t.column(key)):
            if isnan(value) and not ctx.symbolic:
                continue                                        # no bar without a value
            ctx.close('the bars are one standard deviation of their value', h if isnan(h) else h * h, v, scale=1e-3)


def _label(name, key, fallback):
    return history_module.parameter_information.get(name, {}).get(key, fallback)


def _check_parameters(ctx, t, axes, names, error):
    axes = list(np.atleast_1d(axes))
    ctx.claim('one axis per parameter', len(axes) == len(names))
    for ax, p in zip(axes, names):
        got = _read_axis(ax, len(t.rows))
        ctx.claim('one curve per parameter', len(got) == 1)
        if len(got) == 1:
            _check_drawing(ctx, 'the recorded values are drawn', t, got[0], p, error)
        title = ax.title if ctx.symbolic else ax.get_title()
        ctx.claim('an axis is named after its parameter', title == _label(p, 'name', p))


def _check_gradients(ctx, t, axes, names, error):
    axes = list(np.atleast_1d(axes))
    ctx.claim('one axis per gradient', len(axes) == len(names))
    for ax, p in zip(axes, names):
        got = _read_axis(ax, len(t.rows))
        ctx.claim('one curve per gate', sorted(str(c[0]) for c in got) == sorted(GATES))
        for c in got:
            if c[0] in GATES:
                _check_drawing(ctx, 'the recorded gradients are drawn', t, c, (p, c[0]), error)
        text = ax.ylabel if ctx.symbolic else ax.get_ylabel()
        ctx.claim('an axis is named after its parameter', text == _label(p, 'gradient_unit', p))


@harness('C36', quick=[dict(moves=1)], thorough=[dict(moves=2)], expect=['the recorded values are drawn', 'the recorded gradients are drawn'])
def plot_tuning(ctx, moves):
    t = Tuning(ctx)
    t.first()
    for _ in range(3 * moves):
        t.step()
    error = ctx.flag('errors')
    par_error, grad_error = error and ctx.flag('of the parameters'), error and ctx.flag('of the gradients')
    mode = ['with_par_variances'] * par_error + ['with_grad_covariances'] * grad_error
    gates = ctx.choice('gates', [None, 'all', ['a'], ['b', 'a']])
    params = ctx.choice('params', [None, 'all', ['sig'], ['p'], ['p', 'sig', 'current_signal']])
    grads = ctx.choice('grads', [None, 'all', ['p'], ['p', 'current_signal']]) if gates is None or params is None else 'all'
    if 'all' == gates:
        mode, gates = mode + ['all_voltages'], sorted(GATES)
    if 'all' == params:
        mode, params = mode + ['all_parameters'], sorted(t.names)
    if 'all' == grads:
        mode, grads = mode + ['all_gradients'], sorted(t.graded)
    args = dict(voltage_indices=None if 'all_voltages' in mode else gates, parameter_names=None if 'all_parameters' in mode else params,
                gradient_parameter_names=None if 'all_gradients' in mode else grads)
    with _drawing(ctx):
        _, (v_ax, p_ax, g_ax) = t.history.plot_tuning(mode=' '.join(mode), **args)
        for what, ax in ((gates, v_ax), (params, p_ax), (grads, g_ax)):
            ctx.claim('nothing is drawn that is not asked for', (what is None) == (ax is None))
        if gates is not None:
            got = _read_axis(v_ax, len(t.rows))
            ctx.claim('one curve per gate', sorted(str(c[0]) for c in got) == sorted(gates))
            for c in got:
                if c[0] in gates:
                    _check_drawing(ctx, 'the recorded voltages are drawn', t, c, c[0], False)
        if params is not None:
            _check_parameters(ctx, t, p_ax, params, par_error)
        if grads is not None:
            _check_gradients(ctx, t, g_ax, grads, grad_error)


@harness('C36', quick=[dict(graded=1), dict(graded=2)], expect=['the recorded values are drawn', 'the recorded gradients are drawn'])
def windows(ctx, graded):
    """The parameter and the gradient window of the interface are opened at some time and refreshed later."""
    application()
    g = import_gui()
    t = Tuning(ctx, GRADED[:graded])
    t.first()
    if ctx.flag('opened later'):
        t.step()
        t.step()
    kind = ctx.choice('window', ['ParameterWidget', 'GradientWidget'])
    names = (t.graded if kind == 'GradientWidget' else t.names) if ctx.flag('chosen parameters') else None
    figure = Figure()
    cls = getattr(g, kind)
    saved = {n: getattr(g.QTuneMatplotWidget, n) for n in ('getFigure', 'draw')}
    with _drawing(ctx):
        try:
            if ctx.symbolic:
                g.QTuneMatplotWidget.getFigure = lambda self: figure
                g.QTuneMatplotWidget.draw = lambda self: None
            w = cls(t.history, parameter_names=names, parent=None)
            try:
                for n in range(3):
                    if n:
                        for _ in range(n):
                            t.step()
                        w.refresh()
                    axes = w.getFigure().axes
                    keys = [{v: k for k, v in TAGS.items()}.get(c[1][0] if c[1] else None) for ax in axes for c in _read_axis(ax, len(t.rows))[:1]]
                    order = [k[0] if isinstance(k, tuple) else k for k in keys]
                    ctx.claim('every parameter is drawn once', sorted(map(str, order)) == sorted(t.graded if kind == 'GradientWidget' else t.names))
                    (_check_parameters if kind == 'ParameterWidget' else _check_gradients)(ctx, t, axes, order, True)
            finally:
                w.deleteLater()
                application().sendPostedEvents(None, 52)
        finally:
            for n, f in saved.items():
                setattr(g.QTuneMatplotWidget, n, f)
