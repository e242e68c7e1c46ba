"""The graphical interface without a screen, and a scheduler for its worker thread.

Threads made inside `scheduled` are real ones, but only one thread runs at a time: the worker hands over at every line of
qtune/gui.py, whenever it sleeps and at every call of its collaborators.  The harness (user) thread decides what happens
next; it may itself be interrupted at every line of qtune/gui.py."""
import contextlib
import os
import sys
import threading
import time


os.environ['QT_QPA_PLATFORM'] = 'offscreen'
os.environ.setdefault('XDG_RUNTIME_DIR', '/tmp')
os.environ.setdefault('QT_LOGGING_RULES', '*=false')


class _Shell:
    def __getattr__(self, name):
        return lambda *a, **kw: None


def import_gui():
    """qtune.gui can only be imported in an IPython session with a display."""
    if 'qtune.gui' not in sys.modules:
        import IPython
        shell, IPython.get_ipython = IPython.get_ipython, lambda: _Shell()
        try:
            import qtune.gui
        finally:
            IPython.get_ipython = shell
        if hasattr(qtune.gui.GUI, '__del__'):          # an interface that was not closed would close itself at any time
            del qtune.gui.GUI.__del__
    return sys.modules['qtune.gui']


_app = []


def application():
    from pyqtgraph.Qt import QtWidgets
    if not _app:
        _app.append(QtWidgets.QApplication.instance() or QtWidgets.QApplication(['-']))
    return _app[0]


class Killed(BaseException):
    pass


class Hang(Exception):
    """A thread was joined that does not end."""


REAL_THREAD, REAL_SLEEP = threading.Thread, time.sleep


class Worker(REAL_THREAD):
    """Runs only between `go` and the next point."""
    scheduler = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        super().__init__(group=None, target=target, name=name, args=args, kwargs=kwargs, daemon=True)
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.over = self.begun = self.kill = False
        self.error = None
        self.what = None

    def start(self):
        self.begun = True
        self.scheduler.workers.append(self)
        super().start()

    def run(self):
        self.go.acquire()
        try:
            if not self.kill:
                sys.settrace(self.trace)
                super().run()
        except Killed:
            pass
        except BaseException as err:
            self.error = err
        finally:
            sys.settrace(None)
            self.over, self.what = True, 'over'
            self.back.release()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith('qtune/gui.py'):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.point('line')
        return self.line

    def point(self, what):
        self.what = what
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Killed()

    def is_alive(self):
        return self.begun and not self.over

    def join(self, timeout=None):
        if not self.begun:
            raise RuntimeError('cannot join thread before it is started')
        self.scheduler.joining += 1
        try:
            for _ in range(self.scheduler.patience):
                if self.over:
                    break
                self.scheduler.resume(self)
            else:
                if timeout is None:
                    raise Hang()
        finally:
            self.scheduler.joining -= 1
        if self.over:
            super().join(10)


class Scheduler:
    def __init__(self, ctx, switches, patience=400):
        self.ctx, self.switches, self.patience = ctx, switches, patience
        self.workers, self.joining, self.points, self.in_worker = [], 0, 0, False

    def alive(self):
        return [w for w in self.workers if w.is_alive()]

    def resume(self, worker):
        """One move of a worker."""
        self.in_worker = True
        trace = sys.gettrace()
        sys.settrace(None)
        try:
            worker.go.release()
            worker.back.acquire()
        finally:
            self.in_worker = False
            sys.settrace(trace)
        return worker.what

    def switch(self):
        """May the other side move here? (symbolic, a limited number of times)"""
        if not self.switches:
            return False
        self.points += 1
        if self.ctx.flag('switch %d' % self.points):
            self.switches -= 1
            return True
        return False

    def work(self, preempt=True):
        """The workers run until nothing happens any more, or (symbolic) any moment before."""
        quiet = {}
        for _ in range(20 * self.patience):
            todo = [w for w in self.alive() if quiet.get(w, 0) < 3]
            if not todo:
                return True
            w = todo[0]
            what = self.resume(w)
            if what == 'sleep':
                quiet[w] = quiet.get(w, 0) + 1
            elif what == 'call':
                quiet[w] = 0
            else:
                quiet[w] = quiet.get(w, 0) + .02
            if preempt and what != 'sleep' and not w.over and self.switch():
                return False
        raise Hang()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.endswith('qtune/gui.py'):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line' and not self.joining and self.alive():
            trace = sys.gettrace()
            sys.settrace(None)
            try:
                if self.switch():
                    self.work(preempt=True)
            finally:
                sys.settrace(trace)
        return self.line

    def user(self, fn, *args):
        """An action of the user, which the workers may interrupt at any line."""
        trace = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn(*args)
        finally:
            sys.settrace(trace)

    def call(self):
        """To be called by the collaborators of the interface."""
        t = threading.current_thread()
        if isinstance(t, Worker):
            t.point('call')

    def close(self):
        for w in self.alive():
            w.kill = True
            w.go.release()
            w.back.acquire()


@contextlib.contextmanager
def scheduled(ctx, switches=0):
    gui = import_gui()
    application()
    s = Scheduler(ctx, switches)
    thread = type('Thread', (Worker,), dict(scheduler=s))

    def sleep(t):
        me = threading.current_thread()
        if isinstance(me, Worker):
            me.point('sleep')

    saved = {k: v for k, v in vars(gui).items() if v is REAL_THREAD or v is REAL_SLEEP}
    threading.Thread, time.sleep = thread, sleep
    for k, v in saved.items():
        setattr(gui, k, thread if v is REAL_THREAD else sleep)
    try:
        yield s
    finally:
        s.close()
        threading.Thread, time.sleep = REAL_THREAD, REAL_SLEEP
        for k, v in saved.items():
            setattr(gui, k, v)
