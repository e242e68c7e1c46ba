"""C34: the graphical interface drives the tuning as its buttons say."""
import logging
import os

from harness.common import FakeExperiment, scratch, series, snapshot, stepping
from harness.gui_rig import Hang, application, import_gui, scheduled
from harness.h_persist import Script, _hierarchy, _value
from qtune.autotuner import Autotuner
from qtune.history import History
from symx.ctx import harness


class Tuning:
    """The tuner and the history behind the interface: a journal of what the interface asks for."""

    def __init__(self, ctx, scheduler, total, fault, where):
        self.ctx, self.scheduler, self.total, self.fault, self.where = ctx, scheduler, total, fault, where
        self.begun = self.ended = self.recorded = self.failed = 0
        self.busy = False
        self.at_most = None

    def _fail(self, where):
        if where == self.where and self.begun == self.fault:
            self.failed += 1
            self.fault = -1
            raise RuntimeError('a fault of the hardware')

    def is_tuning_complete(self):
        self.scheduler.call()
        self._fail('verdict')
        return self.begun >= self.total

    def iterate(self):
        ctx = self.ctx
        ctx.claim('no iteration without a need', not self.busy and self.begun < self.total)
        ctx.claim('no iteration that nobody asked for', self.allowed())
        ctx.claim('every iteration is recorded', self.recorded in (None, self.ended))
        self.busy = True
        self.scheduler.call()
        self.begun += 1
        self.busy = False
        self._fail('iterate')
        self.ended += 1
        self.scheduler.call()

    def allowed(self):
        return True


class Record:
    def __init__(self, tuning):
        self.tuning = tuning

    def append_autotuner(self, autotuner, path=None):
        t = self.tuning
        t.scheduler.call()
        t.ctx.claim('every iteration is recorded', autotuner is t and t.recorded == t.ended - 1)
        t.recorded += 1
        t._fail('record')


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class User:
    """Asks for iterations; what was asked for is kept for the claims."""

    def __init__(self, ctx, gui, tuning, scheduler):
        self.ctx, self.gui, self.tuning, self.scheduler = ctx, gui, tuning, scheduler
        self.steps = 0                  # not more than these may begin outside of continuous tuning
        self.running = False            # continuous tuning may go on
        self.closed = False
        tuning.allowed = self.allowed

    def allowed(self):
        return self.running or self.tuning.begun < self.steps

    def do(self, what):
        t, s = self.tuning, self.scheduler
        if what == 'start':
            self.running = True
            self.closed = False
            s.user(self.gui.start)
        elif what == 'step':
            self.steps = max(self.steps, t.begun) + 1
            self.closed = False
            s.user(self.gui.step)
        elif what in ('pause', 'close'):
            s.user(self.gui.pause if what == 'pause' else self.gui.close)
            # one iteration may have been decided already
            self.steps = t.begun + (0 if t.busy else 1) if what == 'pause' else t.begun
            self.running = False
            self.closed = self.closed or what == 'close'

    def idle(self):
        return self.scheduler.work(preempt=False)


def _rig(ctx, s, totals=(0, 1, 2), faults=('none', 'iterate', 'record', 'verdict'), times=(0, 1), history=True, tuner=True):
    g = import_gui()
    name = 'symx gui'
    logger = logging.getLogger(name)
    logger.setLevel(logging.INFO)
    logger.propagate = False
    logger.handlers[:] = [Lines()]
    total = ctx.choice('iterations left', totals)
    where = ctx.choice('fault', faults) if tuner else 'none'
    fault = -1
    if where != 'none':
        fault = ctx.choice('at', times) + (where != 'verdict')
    t = Tuning(ctx, s, total, fault, where)
    return g, g.GUI(t if tuner else None, Record(t) if history else None, name), t, logger.handlers[0]


def _ways(gui):
    """What the user can press: the texts of the enabled buttons."""
    from pyqtgraph.Qt import QtWidgets
    return {b.text() for b in gui.findChildren(QtWidgets.QPushButton) if b.isEnabled()}


def _press(gui, what):
    from pyqtgraph.Qt import QtWidgets
    for b in gui.findChildren(QtWidgets.QPushButton):
        if b.text() == what:
            b.click()


OPS = ['step', 'start', 'pause', 'close']


def _configurations(deep):
    some = [dict(first=o, ops=3 + deep, switches=0) for o in OPS]
    for o in ('start', 'step') if not deep else OPS:
        for f in ('none', 'iterate') if not deep else ('none', 'iterate', 'record', 'verdict'):
            some.append(dict(first=o, ops=2, switches=1, totals=[2] if not deep else [0, 1, 2], faults=[f]))
    if deep:
        for o in ('start', 'step'):
            some += [dict(first=o, ops=2, switches=2, totals=[2], faults=['none']), dict(first=o, ops=3, switches=1, totals=[2], faults=['iterate'])]
    return some


@harness('C34', quick=_configurations(0), thorough=_configurations(1),
         max_paths=60000, sample_every=97, replays=12,
         expect=['every iteration is recorded', 'closing ends the worker', 'one step is one iteration'])
def worker(ctx, first, ops, switches, totals=(0, 1, 2), faults=('none', 'iterate', 'record', 'verdict')):
    """Any sequence of clicks, each at any moment of the worker."""
    with scheduled(ctx, switches) as s:
        g, gui, t, lines = _rig(ctx, s, totals, faults)
        user = User(ctx, gui, t, s)
        try:
            ctx.claim('at first nothing happens', user.idle() and t.begun == 0)
            for k in range(ops):
                op = ctx.choice('op %d' % k, OPS) if k else first
                before, failed = t.begun, t.failed
                at_rest = not s.switches or k == 0
                quiet = all(w.what == 'sleep' for w in s.alive()) and not user.running
                user.do(op)
                if op == 'close':
                    ctx.claim('closing ends the worker', not s.alive())
                    continue
                if not s.work():
                    continue                    # the next click comes while the worker is at work
                ctx.claim('one worker', len(s.alive()) == (not user.closed))
                if t.failed == failed and quiet and at_rest and not user.closed:
                    if op == 'step':
                        ctx.claim('one step is one iteration', t.begun == min(before + 1, t.total))
                    if op == 'start':
                        ctx.claim('started, the tuning goes on until it is complete', t.begun == t.total)
                ctx.claim('every iteration is recorded', t.recorded == t.ended)
                # errors end the continuous tuning and are reported
                if t.failed > failed or t.begun >= t.total:
                    user.running = False
                    user.steps = t.begun
            user.idle()
            ctx.claim('every error is reported', sum(bool(r.exc_info) for r in lines.records) == t.failed)
            user.do('pause')
            n = t.begun
            user.idle()
            ctx.claim('a pause lasts', t.begun == n)
            user.do('step')
            fails = t.failed
            user.idle()
            if not user.closed and t.failed == fails:
                ctx.claim('one step is one iteration', t.begun == min(n + 1, t.total))
            if ctx.flag('at full speed'):
                user.do('start')
                s.work()
            user.do('close')
            ctx.claim('closing ends the worker', not s.alive())
            ctx.claim('no worker fails', all(w.error is None for w in s.workers))
        except Hang:
            ctx.claim('closing ends the worker', False)
        finally:
            s.close()
            for w in s.workers:
                w.over = True


@harness('C34', expect=['the buttons show what can be done', 'open windows are refreshed', 'the log is shown'], max_paths=4000, sample_every=7)
def buttons(ctx):
    """Clicks on the buttons of a waiting interface; windows and log follow."""
    from pyqtgraph.Qt import QtCore, QtWidgets
    app = application()
    handlers = {n: logging.getLogger(n).handlers[:] for n in ('', 'symx gui')}
    levels = {n: logging.getLogger(n).level for n in handlers}
    with scheduled(ctx) as s:
        tuner = ctx.flag('with a tuner')
        g, gui, t, lines = _rig(ctx, s, totals=(0, 2), faults=('none', 'iterate'), times=(0,), history=ctx.flag('with a history'), tuner=tuner)
        if not gui.history:
            t.recorded = None
        t.allowed = lambda: True
        drawn = []

        class Window(QtWidgets.QWidget):
            def __init__(self, history=None, parent=None, **kw):
                super().__init__(parent)

            @QtCore.pyqtSlot()
            def refresh(self):
                drawn.append(t.ended)

        saved = {n: getattr(g, n) for n in ('ParameterWidget', 'GradientWidget', 'PlotOrganizer')}
        for n in saved:
            setattr(g, n, Window)
        try:
            if ctx.flag('somebody else logs'):
                logging.getLogger().addHandler(Lines())
            logging.getLogger('symx gui').propagate = True
            gui.configure_logging('symx gui')
            text = gui.findChild(QtWidgets.QTextEdit)
            for b in ctx.choice('window', [['Parameter Plot'], ['Gradient Plot', 'Real Time Plot']]):
                _press(gui, b)
            windows = [w for w in app.topLevelWidgets() if isinstance(w, Window) and w.isVisible()]
            s.work()
            waiting = {'Start', 'Step'}
            ctx.claim('the buttons show what can be done', _ways(gui) & {'Start', 'Step', 'Pause'} == waiting)
            for k in range(2):
                op = ctx.choice('press %d' % k, ['Start', 'Step', 'Pause'])
                n, failed = t.begun, t.failed
                del drawn[:]
                _press(gui, op)
                if op == 'Start':
                    ctx.claim('the buttons show what can be done', _ways(gui) & {'Start', 'Step', 'Pause'} == {'Pause'})
                    if ctx.flag('pause at once %d' % k):
                        _press(gui, 'Pause')
                        op = 'Pause'
                s.work()
                app.processEvents()
                if op == 'Pause' or not tuner:
                    ctx.claim('a pause lasts', t.begun == n)
                if tuner and t.failed == failed and op != 'Pause':
                    ctx.claim('one step is one iteration', t.begun == (min(n + 1, t.total) if op == 'Step' else t.total))
                ctx.claim('the buttons show what can be done', _ways(gui) & {'Start', 'Step', 'Pause'} == waiting)
                done = t.begun - n - (t.failed - failed)
                for w in windows:
                    ctx.claim('open windows are refreshed', (t.ended in drawn) == (done > 0))
            if t.failed:
                ctx.claim('the log is shown', 'a fault of the hardware' in text.toPlainText())
            logging.getLogger('symx gui').critical('a message')
            app.processEvents()
            ctx.claim('the log is shown', 'CRITICAL - a message' in text.toPlainText())
        finally:
            for w in [w for w in app.topLevelWidgets() if isinstance(w, Window)]:
                w.deleteLater()
            for n, c in saved.items():
                setattr(g, n, c)
            gui.close()
            for n, h in handlers.items():
                logging.getLogger(n).handlers[:] = h
                logging.getLogger(n).setLevel(levels[n])


# -- C35: reloading ------------------------------------------------------------------------------------------------
class Bench(FakeExperiment):
    """A device with the signature of the documentation; the answers are numbered."""

    def __init__(self, voltages, script):
        super().__init__(voltages)
        self.script, self.count, self.seen = script, 0, []

    def set_gate_voltages(self, new_gate_voltages):
        return super().set_gate_voltages(new_gate_voltages)

    def value(self, parameter):
        self.seen.append((parameter, dict(self.v)))
        return self.script(self, parameter)


@harness('C35', quick=[dict(setup='steps', before=3), dict(setup='dot', before=3)], thorough=[dict(setup='steps', before=5), dict(setup='dot', before=5), dict(setup='all', before=4)],
         expect=['the chosen voltages are set', 'the chosen tuner is used from now on', 'the tuning continues at the present voltages'], max_paths=20000)
def reload(ctx, setup, before):
    """After some iterations of the interface, the voltages or the state of any recorded iteration are reloaded."""
    from pyqtgraph.Qt import QtWidgets
    volt = {g: ctx.real('start_' + g) if g in 'zs' else .5 for g in ('z', 'b', 'a', 's')}
    script = Script(ctx)
    script.make = _value(ctx, setup)
    exp = Bench(volt, script)
    with scratch() as d, scheduled(ctx) as s, stepping() as queues:
        g = import_gui()
        auto = Autotuner(exp, _hierarchy(ctx, exp, volt, setup), hdf5_storage_path=os.path.join(d, 'library'))
        history = History(None)
        gui = g.GUI(auto, history, 'symx gui')
        notes = []
        try:
            for k in range(before):
                if auto.is_tuning_complete():
                    break
                at = snapshot(auto.tuning_hierarchy[0].last_voltages)
                gui.step()
                s.work()
                note = dict(v=snapshot(auto.tuning_hierarchy[0].last_voltages), file=auto.last_save_file, index=auto.current_tuner_index,
                            status=auto.current_tuner_status)
                if len(notes) < history.number_of_stored_iterations:
                    notes.append(note)
                else:
                    notes[-1] = note
            ctx.claim('one entry per set of voltages', len(notes) == history.number_of_stored_iterations)
            for q in queues:
                q.join()
            volt_now = {x: ctx.real('now_' + x) for x in ('b', 's')}           # somebody turned a knob meanwhile
            exp.v.update(volt_now)
            _press(gui, 'Load')
            widget = [w for w in application().topLevelWidgets() if isinstance(w, g.ReloadWidget)][-1]
            line = widget.findChild(QtWidgets.QLineEdit)
            text = ctx.choice('entry', ['', '0', '1', '99', '-3'])
            if text:
                line.setText(text)
                line.editingFinished.emit()
            shown = int(line.text())
            ctx.claim('the entry exists', 0 <= shown < len(notes))
            if text in ('0', '1') and int(text) < len(notes):
                ctx.claim('the entry exists', shown == int(text))
            note = notes[shown]
            del exp.sets[:], exp.seen[:]
            if ctx.flag('voltages only'):
                _press(widget, 'Reload Voltages')
                ctx.claim('the chosen voltages are set', len(exp.sets) == 1)
                ctx.close_map('the chosen voltages are set', series(list(exp.sets[-1]), exp.sets[-1].values()), note['v'])
                ctx.claim('the chosen tuner is used from now on', gui.auto_tuner is auto)
                want = note['v']
            else:
                want = dict(exp.v)
                _press(widget, 'Reload Entire State!')
                new = gui.auto_tuner
                ctx.claim('the chosen tuner is used from now on', new is not auto and new.last_save_file == note['file'])
                ctx.claim('reloading a state leaves the device alone', not exp.sets)
            ctx.claim('the tuning begins again', gui.auto_tuner.current_tuner_index == 0 and not gui.auto_tuner.is_tuning_complete())
            for tuner in gui.auto_tuner.tuning_hierarchy:
                ctx.close_map('the tuning continues at the present voltages (tuners)', tuner.last_voltages, want)
                at = getattr(tuner.solver, 'current_position', None)
                if at is not None:
                    ctx.close_map('the tuning continues at the present voltages (solvers)', at, {x: want[x] for x in at.index})
            exp.count = 0
            old = auto.current_tuner_index, auto.current_tuner_status
            gui.step()
            s.work()
            ctx.claim('the chosen tuner is used from now on', auto is gui.auto_tuner or (auto.current_tuner_index, auto.current_tuner_status) == old)
            ctx.claim('the tuning continues at the present voltages (evaluations)', len(exp.seen) > 0)
            for _, at in exp.seen:
                ctx.close_map('the tuning continues at the present voltages', series(list(at), at.values()), {**volt, **want})
            ctx.close_map('the tuning continues at the present voltages (records)', gui.auto_tuner.tuning_hierarchy[0].last_voltages, want)
        finally:
            for w in application().topLevelWidgets():
                if isinstance(w, g.ReloadWidget):
                    w.deleteLater()
            application().sendPostedEvents(None, 52)
            gui.close()
            for q in queues:
                q.close()
