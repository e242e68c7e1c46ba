"""The MATLAB back-ends: what is sent to the engine, and what the evaluators make of its answers."""
import re
import types

import numpy as np
import pandas as pd

from harness import matlab_stub
from harness.common import save_and_load, same_thing, series, snapshot, total
from harness.matlab_stub import Engine, instance, plain_float, prepare, viewing
from qtune.experiment import Measurement
from symx.ctx import harness, isnan

BACKENDS = {}
if not matlab_stub.BROKEN:
    from qtune.sm import LegacyDQDRefactored, SpecialMeasureMatlab
    from qtune.sm_tune_qqd import (QQDCharge, QQDDistTP, QQDLead, QQDLine, QQDResp, SMQQDPassThru, QQDSensor1D, QQDSensor2D, SMTuneQQD)
    BACKENDS = {'legacy': (LegacyDQDRefactored, 'set_gates_v_pretuned'), 'qqd': (SMTuneQQD, 'set_qqd_gate_voltages')}


def _backend(kind, engine):
    return BACKENDS[kind][0](instance(engine))


# ---- C31 ---------------------------------------------------------------------------------------------------------
@harness('C31', expect=['the back-ends can be imported'])
def importable(ctx):
    ctx.claim('the back-ends can be imported', matlab_stub.BROKEN is None, detail=matlab_stub.BROKEN)


@harness('C31', quick=[dict(kind='legacy', n=3), dict(kind='qqd', n=3)], thorough=[dict(kind='legacy', n=5), dict(kind='qqd', n=5)],
         expect=['the named gates get their new voltages', 'the hardware reports what was set', 'unknown gates are refused'])
def matlab_gates(ctx, kind, n):
    """Two rounds of setting some of the gates; the hardware may deviate from what it is told."""
    if not prepare(ctx):
        return
    names = ['c', 'a', 'b', 'e', 'd'][:n]
    gates = {g: ctx.real('start_' + g) for g in names}
    exact = ctx.flag('exact hardware')
    dev = {g: ctx.real('deviation_' + g) for g in names}
    engine = Engine(gates, lambda g, v: v if exact else v + dev[g])
    exp = _backend(kind, engine)
    present = dict(gates)
    ctx.close_map('the voltages are read by name', exp.read_gate_voltages(), present)
    ctx.claim('the voltages are sorted by name', list(exp.read_gate_voltages().index) == sorted(names))
    listed = exp.gate_voltage_names
    ctx.claim('the gates are listed', tuple(listed() if callable(listed) else listed) == tuple(sorted(names)))
    for k in range(2):
        chosen = [g for g in names if k or ctx.flag('set_' + g)]
        if not chosen:
            continue
        new = {g: ctx.real('new%d_%s' % (k, g)) for g in chosen}
        s = series(chosen, [new[g] for g in chosen])
        mark = len(engine.sent)
        got = exp.set_gate_voltages(s)
        ctx.claim('one command sets the voltages', len(engine.sent) == mark + 1 and engine.sent[-1][0] == BACKENDS[kind][1])
        sent = engine.sent[-1][1]
        ctx.claim('the command names gates of the hardware', set(chosen) <= set(sent) <= set(names))
        ctx.claim('voltages are sent as plain numbers', all(plain_float(v) for v in sent.values()))
        for g in sent:
            if g in new:
                ctx.close('the named gates get their new voltages', sent[g], new[g])
            else:
                ctx.close('the other gates keep their voltages', sent[g], present[g])
        for g in names:
            present[g] = engine.gates[g]
        ctx.claim('all gates that were set are reported', set(chosen) <= set(got.index) <= set(names))
        for g in got.index:
            ctx.close('the hardware reports what was set', got[g], present[g])
        ctx.close_map('the series stays as it is', s, new)
        ctx.close_map('the voltages are read by name', exp.read_gate_voltages(), present)
    mark = len(engine.sent)
    ctx.raises('unknown gates are refused', KeyError, lambda: exp.set_gate_voltages(series([names[0], 'foreign'], [ctx.real('x'), ctx.real('y')])))
    ctx.claim('a refused command sets nothing', len(engine.sent) == mark)


LEGACY = {'line_scan': 'PythonChargeLineScan', 'detune_scan': 'PythonLineScan', 'lead_scan': 'LeadScan', 'load_scan': 'LoadScan', '2d_scan': 'PythonQPCScan2D'}


@harness('C31', expect=['the scan gets all options', 'the data are what the scan returned', 'an unknown scan is refused'])
def legacy_scans(ctx):
    if not prepare(ctx):
        return
    name = ctx.choice('scan', sorted(LEGACY) + ['other_scan'])
    data = [[ctx.real('d%d%d' % (i, j)) for j in range(2)] for i in range(2)]
    engine = Engine(answer=lambda fn, args: data)
    exp = _backend('legacy', engine)
    if name == '2d_scan':
        options = dict(range=ctx.real('range'), n_points=ctx.real('n_points'))
    elif name in ('line_scan', 'detune_scan'):
        options = dict(gate='RFA', AWGorDecaDAC='DecaDAC')
        for k in ('center', 'range', 'N_points', 'N_average', 'ramptime'):
            if ctx.flag('with_' + k):
                options[k] = ctx.real(k)
    else:
        options = dict(gate='B', AWGorDecaDAC='AWG')
    meas = Measurement(name, **options)
    if name == 'other_scan':
        ctx.raises('an unknown scan is refused', ValueError, lambda: exp.measure(meas))
        return ctx.claim('a refused scan sends nothing', not engine.calls)
    rounds = 1 + ctx.flag('again')
    for k in range(rounds):
        got = exp.measure(meas)
        ctx.claim('every measurement is one scan', len(engine.calls) == k + 1 and engine.calls[-1][0] == LEGACY[name] and len(engine.calls[-1][1]) == 1)
        sent = dict(engine.calls[-1][1][0])
        file_name = sent.pop('file_name', None)
        ctx.claim('the scan has a file name', isinstance(file_name, str) and file_name != '')
        ctx.claim('the scan gets all options', set(sent) == set(options))
        for o in options:
            if o in sent:
                ctx.close('the scan gets all options', sent[o], options[o])
        ctx.close_mat('the data are what the scan returned', got, data)
        ctx.claim('the measurement stays as it is', set(meas.options) == set(options))
        for o in options:
            if o in meas.options:
                ctx.close('the measurement stays as it is', meas.options[o], options[o])


@harness('C31', expect=['tune gets the name, the index and all options', 'the result is handed out', 'an unknown measurement is refused'])
def qqd_measure(ctx):
    if not prepare(ctx):
        return
    kinds = ['sensor 2d', 'sensor', 'chrg', 'resp', 'line', 'lead', 'load', 'load pos', 'chrg rnd', 'chrg s', 'stp', 'tl', 'unknown']
    name = ctx.choice('measurement', kinds)
    ana = types.SimpleNamespace(**{k: ctx.real(k) for k in ('STp_x', 'STp_y', 'Tp_x', 'Tp_y')})
    view = types.SimpleNamespace(ana=ana)
    engine = Engine(answer=lambda fn, args: view)
    exp = _backend('qqd', engine)
    options = dict(index=ctx.real('index'))
    if ctx.flag('a number'):
        options['detuning'] = ctx.real('detuning')
    if ctx.flag('a word'):
        options['mode'] = 'fast'
    meas = Measurement(name, **{k: (matlab_stub.generic(ctx, v) if ctx.flag('generic_' + k) else v) if k != 'mode' else v for k, v in options.items()})
    with viewing() as made:
        if name == 'unknown':
            ctx.raises('an unknown measurement is refused', ValueError, lambda: exp.measure(meas))
            return ctx.claim('a refused measurement sends nothing', not made)
        for k in range(1 + ctx.flag('again')):
            got = exp.measure(meas)
            ctx.claim('every measurement is one call of tune', len(made) == k + 1 and made[-1][0] is engine and made[-1][1] == 'tune.tune' and not made[-1][3])
            args = made[-1][2]
            ctx.claim('tune gets the name, the index and all options', len(args) == 2 * len(options) and args[0] == name and
                      set(args[2::2]) == set(options) - {'index'})
            ctx.close('tune gets the name, the index and all options', args[1], options['index'])
            for o, v in zip(args[2::2], args[3::2]):
                ctx.close('tune gets the name, the index and all options', v, options.get(o, np.nan))
            ctx.claim('numbers are sent as plain numbers', all(plain_float(v) or isinstance(v, str) for v in args))
            if name == 'stp':
                ctx.close_seq('the result is handed out', got, [ana.STp_x, ana.STp_y])
            elif name == 'tl':
                ctx.close_seq('the result is handed out', got, [ana.Tp_x, ana.Tp_y])
            else:
                ctx.claim('the result is handed out', got['data'] is view)
            ctx.claim('the measurement stays as it is', set(meas.options) == set(options))
            for o in options:
                if o in meas.options:
                    ctx.close('the measurement stays as it is', meas.options[o], options[o])


@harness('C31', expect=['every number is converted', 'what MATLAB cannot take is refused'])
def conversion(ctx):
    if not prepare(ctx):
        return
    m = instance(Engine())
    x, y = ctx.real('x'), ctx.real('y')
    for k, (obj, want) in enumerate([(x, x), (matlab_stub.generic(ctx, x), x), ([x, y], [x, y]), ((x, [y]), (x, [y])), ({'p': x, 'q': [y, x]}, {'p': x, 'q': [y, x]}),
                                     (series(['q', 'p'], [x, y]), {'q': x, 'p': y}), (np.int64(3), 3.), (np.float32(.5), .5)]):
        got = m.to_matlab(obj)
        same_thing(ctx, 'every number is converted', got, want)

        def plain(v):
            if isinstance(v, (list, tuple)):
                return all(plain(w) for w in v)
            return all(plain(w) for w in v.values()) if isinstance(v, dict) else plain_float(v)
        ctx.claim('numbers are sent as plain numbers', plain(got))
    ctx.raises('what MATLAB cannot take is refused', NotImplementedError, lambda: m.to_matlab([x, object()]))


@harness('C31', expect=['an engine is connected once', 'qtune is on the path'])
def sessions(ctx):
    """No engine is connected twice; the functions of qtune are on the path of every engine."""
    import matlab.engine as me
    if not prepare(ctx):
        return
    SpecialMeasureMatlab.connected_engines.clear()
    made = []

    def start(*args):
        made.append(Engine(name='started%d' % len(made), pid=float(100 + len(made)), on_path=ctx.flag('on_path%d' % len(made))))
        return made[-1]

    def connect(name='default'):
        e = Engine(name=name, pid=float(100 + len(made)), on_path=ctx.flag('on_path%d' % len(made)))
        ctx.claim('an engine is connected once', name not in [x.name for x in made])
        made.append(e)
        return e
    real = me.start_matlab, me.connect_matlab
    me.start_matlab, me.connect_matlab = start, connect
    used = []
    try:
        for k in range(3):
            how = ctx.choice('how%d' % k, ['start', 'any', 'A', 'B'])
            count = len(made)
            m = SpecialMeasureMatlab(connect={'start': None, 'any': True}.get(how, how), gui=None)
            used.append(m)
            if how == 'start':
                ctx.claim('a new engine is started', len(made) == count + 1 and m.engine is made[-1])
            elif how == 'any':
                ctx.claim('an engine that is there is used', m.engine in made and len(made) == max(count, 1))
            else:
                ctx.claim('the named engine is used', m.engine.name == how)
            ctx.claim('qtune is on the path', m.engine.on_path)
    finally:
        me.start_matlab, me.connect_matlab = real


class Unknown(Exception):
    """A statement this interpreter does not know."""


class Interpreter(Engine):
    """The statements of MATLAB that a call of a function by a view consists of."""

    def __init__(self, functions):
        super().__init__()
        self.functions, self.workspace, self.called = functions, {}, []
        self.util = types.SimpleNamespace(py=types.SimpleNamespace(my_eval=self.eval))

    def exist(self, name, *args):
        return 1. if name in self.workspace else 0.

    def struct(self, *args):
        if args:
            raise Unknown('struct')
        return {}

    def _value(self, text):
        text = text.strip()
        m = re.fullmatch(r"subsref\((.*), struct\('type', \{'\.'\}, 'subs', \{'(\w+)'\}\)\)", text)
        if m:
            return self._value(m.group(1))[m.group(2)]
        m = re.fullmatch(r"subsasgn\((.*), struct\('type', \{'\.'\}, 'subs', \{'(\w+)'\}\), (.*)\)", text)
        if m:
            new = dict(self._value(m.group(1)))
            new[m.group(2)] = self._value(m.group(3))
            return new
        if text == '{}' or text == '[]':
            return []
        m = re.fullmatch(r"struct\(('\w+', .*)\)", text)
        if m:
            parts = m.group(1).split(', ')
            return {k[1:-1]: self._value(v[1:-1] if v.startswith('{{') else v) for k, v in zip(parts[::2], parts[1::2])}
        m = re.fullmatch(r"(.*)\((.*)\{:\}\)", text)
        if m and m.group(1) in self.functions:
            args = list(self._value(m.group(2)))
            self.called.append((m.group(1), args))
            return self.functions[m.group(1)](args)
        m = re.fullmatch(r"(isstruct|iscell|istable|isscalar|numel)\((.*)\)", text)
        if m:
            v = self._value(m.group(2))
            return {'isstruct': isinstance(v, dict), 'iscell': isinstance(v, list), 'istable': False, 'isscalar': not isinstance(v, list), 'numel': 1.}[m.group(1)]
        m = re.fullmatch(r"functions\(@(.*)\)", text)
        if m:
            if m.group(1) in self.functions:
                return {'type': 'simple', 'file': 'a file'}
            raise matlab_stub.matlab.engine.MatlabExecutionError(text)
        if not re.fullmatch(r'[\w.]+', text):
            raise Unknown(text)
        v = self.workspace
        for part in text.split('.'):
            if part not in v:
                raise matlab_stub.matlab.engine.MatlabExecutionError(text)
            v = v[part]
        return v

    def eval(self, text, **kw):
        m = re.fullmatch(r'([\w.]+)(\{end ?\+ ?1\})? *= *(.*?);? *', text)
        if not m:
            return self._value(text.rstrip('; '))
        value = self._value(m.group(3))
        *path, last = m.group(1).split('.')
        v = self.workspace
        for part in path:
            v = v[part]
        v[last] = list(v[last]) + [value] if m.group(2) else value


@harness('C31')
def function_calls(ctx):
    """Calling a MATLAB function with numbers and views of MATLAB data, twice."""
    if not prepare(ctx):
        return
    from qtune import mat2py
    count = []

    def fn(args):
        count.append(ctx.real('result%d' % len(count)))
        return {'x': count[-1]} if structured else count[-1]
    structured = ctx.flag('structured result')
    e = Interpreter({'tune.tune': fn, 'other': fn})
    inner = ctx.real('inner')
    e.workspace['data'] = {'x': inner}
    results = []
    try:
        for k in range(2):
            name = ['tune.tune', 'other'][k and ctx.flag('other function')]
            args, want = [], []
            for i in range(ctx.choice('arguments%d' % k, [0, 1, 3])):
                if i != 1 and ctx.flag('view%d_%d' % (k, i)):
                    args.append(mat2py.MATLABStructView(e, 'data'))
                    want.append(e.workspace['data'])
                else:
                    args.append(ctx.real('a%d_%d' % (k, i)) if i < 2 else 'word')
                    want.append(args[-1])
            results.append(mat2py.MATLABFunctionView(e, name)(*args))
            ctx.claim('the function is called once', len(e.called) == k + 1 and e.called[-1][0] == name)
            got = e.called[-1][1]
            ctx.claim('the arguments are handed over in order', len(got) == len(want))
            for g, w in zip(got, want):
                if isinstance(w, dict):
                    ctx.claim('the arguments are handed over in order', g is w)
                elif isinstance(w, str):
                    ctx.claim('the arguments are handed over in order', g == w)
                else:
                    ctx.close('the arguments are handed over in order', g, w)
        for r, c in zip(results, count):
            ctx.close('the result is the one of this call', r.x if structured else r, c)
        ctx.claim('the data stay as they are', set(e.workspace['data']) == {'x'})
        ctx.claim('looking at results calls nothing', len(e.called) == 2)
    except Unknown:
        pass                                                            # written in other words than this interpreter knows


# ---- C32 ---------------------------------------------------------------------------------------------------------
class Scans:
    """An experiment that returns given results."""

    def __init__(self):
        self.seen, self.result = [], None

    def measure(self, measurement):
        self.seen.append(measurement)
        return self.result

    __deepcopy__ = None


def _result(ana, file='file'):
    return pd.Series({'data': types.SimpleNamespace(ana=ana, args=types.SimpleNamespace(fullFile=file))})


def _evaluator(ctx, cls, parameters, reloaded, **kw):
    from harness.common import FakeExperiment
    exp = FakeExperiment({})
    scans = Scans()
    exp.measure = scans.measure
    meas = Measurement('scan', index=1)
    ev = cls(exp, (meas,), parameters, name='ev', **kw)
    if reloaded:
        ev = save_and_load(ev, reserved={'experiment': exp})
        ctx.claim('a reloaded evaluator is of the same class', type(ev) is cls)
        same_thing(ctx, 'a reloaded evaluator is the same', ev.to_hdf5(), cls(exp, (meas,), parameters, name='ev', **kw).to_hdf5())
    return ev, scans


def _evaluate(ctx, ev, scans, result):
    scans.result = result
    mark = len(scans.seen)
    ok, r = ctx.completes('the evaluation ends', ev.evaluate)
    ctx.claim('one measurement is made', len(scans.seen) == mark + 1 and scans.seen[-1] is ev.measurements[0])
    return r


def _labelled(ctx, got, want, label):
    ctx.close_map(label, got, want)


@harness('C32', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=2), dict(n=4)], expect=['the width is the mean of all scans', 'values out of range are no values'])
def qqd_line(ctx, n):
    if not prepare(ctx):
        return
    kw = {}
    lo, hi = -np.inf, np.inf
    if ctx.flag('limits'):
        lo, hi = ctx.real('minimal'), ctx.real('maximal')
        kw = dict(minimal_value=lo, maximal_value=hi)
    ev, scans = _evaluator(ctx, QQDLine, ['width'], ctx.flag('reloaded'), **kw)
    for k in range(2):
        w = [ctx.maybe_nan('w%d_%d' % (k, i)) if i == 0 else ctx.real('w%d_%d' % (k, i)) for i in range(n)]
        value, var = _evaluate(ctx, ev, scans, _result([types.SimpleNamespace(width=x) for x in w]))
        if isnan(w[0]):
            ctx.claim('an unknown width is no value', isnan(value['width']) and isnan(var['width']))
            continue
        mean = total(w) / n
        _labelled(ctx, var, {'width': total([(x - mean) * (x - mean) for x in w]) / n / n}, 'the variance is the one of the mean')
        _limited(ctx, value['width'], mean, lo, hi, 'the width is the mean of all scans', computed=n > 1)


def _limited(ctx, got, want, lo, hi, label, computed=False):
    for b in (lo, hi) if computed and not np.isinf(lo) else ():         # rounding decides on the limit itself
        ctx.require(ctx.Or(want - b > 1e-3, want - b < -1e-3))
    inside = ctx.And(want >= lo, want <= hi)
    if bool(inside):
        ctx.close(label, got, want)
    else:
        ctx.claim('values out of range are no values', isnan(got))


@harness('C32', expect=['the lead time is the fitted one', 'values out of range are no values'])
def qqd_lead(ctx):
    if not prepare(ctx):
        return
    kw = {}
    lo, hi = -np.inf, np.inf
    if ctx.flag('limits'):
        lo, hi = ctx.real('minimal'), ctx.real('maximal')
        kw = dict(minimal_value=lo, maximal_value=hi)
    ref, error = ctx.real('reference', lo=.1), ctx.real('error', lo=0.)
    ev, scans = _evaluator(ctx, QQDLead, ['time'], ctx.flag('reloaded'), error=error, reference_residual_sum=ref, **kw)
    for k in range(2):
        fit = [[ctx.real('f%d_%d_%d' % (k, i, j)) for j in range(4)] for i in range(2)]
        res = ctx.real('residuals%d' % k, lo=0.)
        value, var = _evaluate(ctx, ev, scans, _result(types.SimpleNamespace(fitParams=fit, sumResiduals=res)))
        ctx.claim('the value is labelled', list(value.index) == ['time'] == list(var.index))
        _limited(ctx, value['time'], fit[1][3], lo, hi, 'the lead time is the fitted one')
        ctx.close('the error scales with the residuals', var['time'] * ref, error * res)


@harness('C32', expect=['the position and the slope are the analysed ones'])
def qqd_sensor(ctx):
    if not prepare(ctx):
        return
    two = ctx.flag('two gates')
    parameters = ['x', 'y', 'slope'] if two else ['x', 'slope']
    ev, scans = _evaluator(ctx, QQDSensor2D if two else QQDSensor1D, parameters, ctx.flag('reloaded'))
    for k in range(2):
        x, y, s = (ctx.real('%s%d' % (v, k)) for v in 'xys')
        value, var = _evaluate(ctx, ev, scans, _result(types.SimpleNamespace(xVal=x, yVal=y, minGradData=s)))
        want = {'x': x, 'slope': ctx.ite(s < 0, -s, s)}
        if two:
            want['y'] = y
        ctx.close_map('the position and the slope are the analysed ones', value, want)
        ctx.claim('nothing is known about the errors', set(var.index) == set(parameters) and all(isnan(v) for v in var))


@harness('C32', quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], expect=['the positions are the analysed ones', 'the distance of the triple points'])
def qqd_charge(ctx, n):
    if not prepare(ctx):
        return
    error = ctx.real('error', lo=0.)
    what = ctx.choice('what', ['charge', 'distance'])
    if what == 'charge':
        parameters = ['p%d' % i for i in range(n)]
        ev, scans = _evaluator(ctx, QQDCharge, parameters, ctx.flag('reloaded'), error=error)
        for k in range(2):
            o = [ctx.real('o%d_%d' % (k, i)) for i in range(n)]
            value, var = _evaluate(ctx, ev, scans, _result(types.SimpleNamespace(O=np.array([o], dtype=object if ctx.symbolic else float))))
            ctx.close_map('the positions are the analysed ones', value, dict(zip(parameters, o)))
            ctx.close_map('the error is the given one', var, {p: error for p in parameters})
        return
    ev, scans = _evaluator(ctx, QQDDistTP, ['d'], ctx.flag('reloaded'), error=error)
    for k in range(2):
        left, right = ([ctx.real('%s%d_%d' % (v, k, i)) for i in range(n)] for v in 'lr')
        value, var = _evaluate(ctx, ev, scans, _result(types.SimpleNamespace(triplePointLeft=left, triplePointRight=right)))
        d = value['d']
        ctx.claim('a distance is not negative', list(value.index) == ['d'] and bool(d >= 0))
        ctx.close('the distance of the triple points', d * d, total([(a - b) * (a - b) for a, b in zip(left, right)]), scale=1e2)
        ctx.close_map('the error is the given one', var, {'d': error})


@harness('C32', expect=['the positions are the analysed ones', 'values out of range are no values', 'weak transitions have no position'])
def qqd_resp(ctx):
    """Positions of two transitions: NaN for a weak one and out of the limits, which are given by name or for all."""
    if not prepare(ctx):
        return
    parameters = ['left', 'right']
    how = ctx.choice('limits', ['none', 'same', 'each', 'each (other order)'])
    lo, hi = {p: -np.inf for p in parameters}, {p: np.inf for p in parameters}
    kw = {}
    if how == 'same':
        a, b = ctx.real('lo'), ctx.real('hi')
        lo, hi = {p: a for p in parameters}, {p: b for p in parameters}
        kw = dict(min_position=a, max_position=b)
    elif how != 'none':
        lo, hi = ({p: ctx.real(w + p) for p in parameters} for w in ('lo_', 'hi_'))
        order = parameters if how == 'each' else parameters[::-1]
        kw = dict(min_position=series(order, [lo[p] for p in order]), max_position=series(order, [hi[p] for p in order]))
    height = -np.inf
    if ctx.flag('minimal height'):
        height = kw['min_transition_height'] = ctx.real('height')
    if ctx.flag('errors by name'):
        err = {p: ctx.real('err_' + p) for p in parameters}
        kw['error'] = series(parameters[::-1], [err[p] for p in parameters[::-1]])
    else:
        err = {p: 1. for p in parameters}
    ev, scans = _evaluator(ctx, QQDResp, parameters, ctx.flag('reloaded'), **kw)
    for k in range(2 if how in ('none', 'same') else 1):
        pos, vis = ({p: ctx.real('%s%d_%s' % (w, k, p)) if k == 0 else 1. + len(p) for p in parameters} for w in ('pos', 'vis'))
        value, var = _evaluate(ctx, ev, scans, _result([types.SimpleNamespace(position=pos[p], visiblity=vis[p]) for p in parameters]))
        ctx.close_map('the errors are the given ones', var, err)
        ctx.claim('the values are labelled', list(value.index) == parameters)
        for p in parameters:
            if bool(vis[p] < height):
                ctx.claim('weak transitions have no position', isnan(value[p]))
            else:
                _limited(ctx, value[p], pos[p], lo[p], hi[p], 'the positions are the analysed ones')


@harness('C32', quick=[dict(kind='stp'), dict(kind='two'), dict(kind='lead'), dict(kind='line'), dict(kind='resp')], expect=['the values are handed out in order'])
def pass_through(ctx, kind):
    """The evaluator that hands out what its measurements return (numbers)."""
    if not prepare(ctx):
        return
    from harness.common import FakeExperiment
    names = dict(stp=['stp'], two=['tl', 'stp'], lead=['lead'], line=['line'], resp=['resp'])[kind]
    parameters = ['y', 'x', 'b', 'a'][:dict(stp=2, two=4, lead=2, line=1, resp=4)[kind]]
    exp = FakeExperiment({})
    exp.get_last_file_name = lambda: 'file %d' % len(seen)
    meas = tuple(Measurement(n, index=1) for n in names)
    seen, mode = [], dict(round=0)
    noise = [float(i * i % 11) for i in range(8)]

    def measure(m):
        seen.append(m)
        k = (len(seen) - 1) // len(names)
        j = names.index(m.name)
        if mode['estimating'] and k < 8:
            out = [noise[k] * (i + 1) + 10. * j for i in range(2 if kind in ('stp', 'two', 'lead') else (1 if kind == 'line' else 4))]
        else:
            out = [mode['values'][2 * j + i] for i in range(2 if kind in ('stp', 'two', 'lead') else (1 if kind == 'line' else 4))]
        if kind == 'lead':
            out = out + [mode['residual']]
        elif kind == 'line':
            out = out + [mode['residual']]
        elif kind == 'resp':
            out = out + list(mode['weak'])
        return np.array(out, dtype=object if ctx.symbolic else float)
    exp.measure = measure
    known = ctx.flag('error is known')
    error = {p: ctx.real('error_' + p, lo=0.) for p in parameters}
    ref = {p: ctx.real('reference_' + p, lo=.1) for p in parameters} if ctx.flag('reference') else None
    order = parameters[::-1]
    kw = dict(error=pd.Series([error[p] for p in order], index=order) if known else None,
              reference_residual_sum=None if ref is None else pd.Series([ref[p] for p in order], index=order))
    ev = SMQQDPassThru(exp, meas, parameters, name='ev', **kw)
    if ctx.flag('reloaded'):
        ev = save_and_load(ev, reserved={'experiment': exp})
    for k in range(2):
        mode['estimating'] = k == 0 and not known
        mode['values'] = [ctx.real('v%d_%d' % (k, i)) for i in range(4)]
        mode['residual'] = ctx.real('residual%d' % k, lo=0.)
        mode['weak'] = [[2., 0., np.nan, 3.], [0., 1., 2., 2.]][k]
        del seen[:]
        ok, (value, var) = ctx.completes('the evaluation ends', ev.evaluate)
        ctx.claim('one measurement is made', [m.name for m in seen] == names * (9 if mode['estimating'] else 1))
        ctx.close_map('the values are handed out in order', value, {p: mode['values'][i] for i, p in enumerate(parameters)})
        ctx.claim('the errors are labelled', set(var.index) == set(parameters))
        if k == 0 and not known:
            for i, p in enumerate(parameters):
                x = [n * (i % 2 + 1 if kind != 'resp' else i + 1) for n in noise]
                mean = total(x) / 8
                error[p] = total([(v - mean) * (v - mean) for v in x]) / 7
        for i, p in enumerate(parameters):
            residual = {'lead': mode['residual'], 'resp': mode['weak'][i]}.get(kind, np.nan)
            if kind == 'line':
                ctx.close('the variance is the measured one', var[p], mode['residual'])
            elif ref is None or isnan(residual) or kind == 'resp' and residual == 0.:
                ctx.close('the error is the known or estimated one', var[p], error[p], scale=1e2)
            else:
                ctx.close('the error scales with the residuals', var[p] * ref[p], error[p] * residual, scale=1e2)
