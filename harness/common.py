"""Stubs for the parts of the system a property does not talk about.  They only record and hand out values."""
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter('ignore')

from qtune.evaluator import Evaluator                       # noqa: E402
from qtune.experiment import Experiment                     # noqa: E402
from qtune.gradient import GradientEstimator                # noqa: E402
from qtune.parameter_tuner import ParameterTuner            # noqa: E402
from qtune.solver import Solver, make_target                # noqa: E402


def series(labels, values):
    return pd.Series(list(values), index=list(labels))


def snapshot(s):
    return {k: s[k] for k in s.index}


class StubEvaluator(Evaluator):
    def __init__(self, parameters, source, name='stub'):
        super().__init__(experiment=None, measurements=(), parameters=tuple(parameters), raw_x_data=None,
                         raw_y_data=None, name=name)
        self.source = source
        self.calls = 0

    def evaluate(self):
        self.calls += 1
        return self.source()

    def process_raw_data(self, raw_data):
        raise NotImplementedError()

    def to_hdf5(self):
        return {}


class StubSolver(Solver):
    """Hands out given suggestions; target handling and rescaling are the real base class."""

    def __init__(self, target, current_position, suggestion=None):
        self._target = target
        self._current_position = current_position
        self.suggestion = suggestion
        self.updates = []
        self.asked = []
        self.restarts = []

    def suggest_next_position(self, tuned_parameters=None):
        self.asked.append(tuned_parameters)
        return self.suggestion() if callable(self.suggestion) else self.suggestion

    def update_after_step(self, position, values, variances):
        self.updates.append((snapshot(position), snapshot(values), snapshot(variances)))

    @property
    def state(self):
        return pd.Series()

    def to_hdf5(self):
        return {}


class StubEstimator(GradientEstimator):
    def __init__(self, current_position, gradient=None, request=None):
        self._current_position = current_position
        self.gradient = gradient
        self.request = request
        self.asked = []
        self.updates = []
        self.restarts = []

    def estimate(self):
        return self.gradient

    def covariance(self):
        return None

    def require_measurement(self, gates=None, tuned_jacobian=None):
        self.asked.append((gates, tuned_jacobian))
        return self.request

    def update(self, position, value, covariance, is_new_position=False):
        self.updates.append((snapshot(position), value, covariance, is_new_position))

    def restart(self, new_position):
        self.restarts.append(snapshot(new_position))
        super().restart(new_position)

    def to_hdf5(self):
        return {}


class StubTuner(ParameterTuner):
    """A tuner whose verdicts and next voltages are chosen by the harness; everything it is asked is logged."""

    def __init__(self, name, target, log, verdict, propose, gates):
        super().__init__([], StubSolver(target, series(gates, [0.] * len(gates))))
        self.name, self.log, self.verdict, self.propose = name, log, verdict, propose

    def is_tuned(self, voltages):
        self._last_voltage = voltages
        v = self.verdict(self)
        self.log.append(('is_tuned', self.name, snapshot(voltages), v))
        return v

    def get_next_voltages(self, tuned_parameters=None):
        nxt = self.propose(self)
        self.log.append(('next', self.name, set(tuned_parameters or ()), snapshot(nxt)))
        return nxt

    def restart(self, new_voltages):
        self.log.append(('restart', self.name, snapshot(new_voltages)))
        super().restart(new_voltages)

    def to_hdf5(self):
        return {}


class FakeExperiment(Experiment):
    def __init__(self, voltages, log=None):
        self.v = dict(voltages)
        self.log = log if log is not None else []
        self.sets = []

    @property
    def gate_voltage_names(self):
        return tuple(self.v)

    @property
    def measurements(self):
        return ()

    def read_gate_voltages(self):
        return series(self.v, self.v.values())

    def set_gate_voltages(self, new):
        new = snapshot(new)
        self.sets.append(new)
        self.log.append(('set', new))
        for k, x in new.items():
            self.v[k] = x
        return series(new, new.values())


def dot(a, b):
    r = 0.
    for x, y in zip(a, b):
        r = r + x * y
    return r


def total(xs):
    r = 0.
    for x in xs:
        r = r + x
    return r


# -- storage -------------------------------------------------------------------------------------------------------
import contextlib                                            # noqa: E402
import copy                                                  # noqa: E402
import os                                                    # noqa: E402
import queue as queue_module                                 # noqa: E402
import shutil                                                # noqa: E402
import tempfile                                              # noqa: E402
import threading                                             # noqa: E402

import qtune.storage                                         # noqa: E402


@contextlib.contextmanager
def scratch():
    """A directory for the files of one path; in symbolic runs the files themselves exist only in memory."""
    path = tempfile.mkdtemp(prefix='symx_')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)
        from symx import h5stub
        for name in [n for n in h5stub.FILES if str(n).startswith(path)]:
            del h5stub.FILES[name]


def save_and_load(obj, reserved=None, loaded_reserved=None, name='thing'):
    """obj after a detour through a file."""
    with scratch() as d:
        path = os.path.join(d, 'file.hdf5')
        qtune.storage.to_hdf5(path, name, obj, reserved=reserved)
        return load(path, loaded_reserved if loaded_reserved is not None else reserved)[name]


def load(path, reserved=None):
    handle = qtune.storage.h5py.File(path, mode='r')
    try:
        return qtune.storage.from_hdf5(handle, reserved=reserved or {})
    finally:
        handle.close()


def as_dict(obj):
    return obj.to_hdf5()


def same_thing(ctx, label, got, want, ids=None):
    """got has the structure, the types and the values of want; objects that want shares, got shares."""
    if ids is None:
        ids = {}
    from qtune.storage import serializables
    if isinstance(want, (dict, list, pd.Series, pd.DataFrame)) or type(want).__name__ in serializables:
        if id(want) in ids:
            ctx.claim(label + ' (shared objects)', ids[id(want)][0] is got)
            return
        ctx.claim(label + ' (distinct objects)', all(g is not got for g, _ in ids.values()))
        ids[id(want)] = (got, want)
    if want is None:
        ctx.claim(label + ' (None)', got is None)
    elif isinstance(want, Experiment):
        ctx.claim(label + ' (experiment)', got is want)
    elif isinstance(want, dict):
        ctx.claim(label + ' (dict)', isinstance(got, dict) and set(got) == set(want))
        for k in want:
            if k in got:
                same_thing(ctx, label, got[k], want[k], ids)
    elif isinstance(want, (list, tuple)):
        ctx.claim(label + ' (sequence)', type(got) is type(want) and len(got) == len(want))
        for a, b in zip(got, want):
            same_thing(ctx, label, a, b, ids)
    elif isinstance(want, pd.Series):
        ctx.claim(label + ' (series)', isinstance(got, pd.Series) and list(got.index) == list(want.index))
        for a, b in zip(got.values, want.values):
            ctx.close(label, a, b)
    elif isinstance(want, pd.DataFrame):
        ctx.claim(label + ' (frame)', isinstance(got, pd.DataFrame) and list(got.index) == list(want.index) and
                  list(got.columns) == list(want.columns))
        for a, b in zip(got.to_numpy().ravel(), want.to_numpy().ravel()):
            ctx.close(label, a, b)
    elif type(want).__name__ in serializables:
        ctx.claim(label + ' (class)', type(got) is type(want))
        if type(got) is type(want):
            same_thing(ctx, label, got.to_hdf5(), want.to_hdf5(), Grow(ids))
    elif isinstance(want, np.ndarray) and want.shape:
        ctx.claim(label + ' (array)', isinstance(got, np.ndarray) and got.shape == want.shape)
        if isinstance(got, np.ndarray):
            for a, b in zip(got.ravel(), want.ravel()):
                ctx.close(label, a, b)
    elif isinstance(want, str):
        ctx.claim(label + ' (str)', isinstance(got, str) and got == want)
    else:
        ctx.close(label, got, want)


class Grow(dict):
    """Identities inside one to_hdf5 dictionary, which may hold temporaries: not compared with those outside."""

    def __init__(self, outer):
        super().__init__()


class StepQueue:
    """A queue whose consumer runs only when the harness lets it: one task at a time, in lock step."""
    made = []

    def __init__(self, *args, **kw):
        self.items, self.go, self.done, self.closed = [], threading.Semaphore(0), threading.Semaphore(0), False
        self.consumer = None
        StepQueue.made.append(self)

    def put(self, item, *args, **kw):
        self.items.append(item)

    put_nowait = put

    def get(self, *args, **kw):
        self.consumer = threading.current_thread()
        self.go.acquire()
        return None if self.closed or not self.items else self.items.pop(0)

    def task_done(self):
        self.done.release()

    def step(self):
        if self.items and not self.closed:
            self.go.release()
            for _ in range(200):
                if self.done.acquire(timeout=.1):
                    return
                if self.consumer is not None and not self.consumer.is_alive():
                    raise RuntimeError('nobody does the tasks: whoever joins the queue waits forever')
            raise RuntimeError('the writer does not finish its task')

    def join(self):
        while self.items and not self.closed:
            self.step()

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def close(self):
        self.closed = True
        self.go.release()


class StepThread(threading.Thread):
    def __init__(self, *args, **kw):
        kw['daemon'] = True
        super().__init__(*args, **kw)

    def join(self, timeout=None):
        super().join(20 if timeout is None else timeout)
        if timeout is None and self.is_alive():
            raise RuntimeError('the writer does not stop')


@contextlib.contextmanager
def stepping():
    """Writers made inside use a queue and a thread that the harness controls."""
    saved = queue_module.Queue, threading.Thread
    own = {k: v for k, v in vars(qtune.storage).items() if v in saved if isinstance(v, type)}
    del StepQueue.made[:]
    queue_module.Queue, threading.Thread = StepQueue, StepThread
    for k, v in own.items():
        setattr(qtune.storage, k, StepQueue if v is saved[0] else StepThread)
    try:
        yield StepQueue.made
    finally:
        queue_module.Queue, threading.Thread = saved
        for k, v in own.items():
            setattr(qtune.storage, k, v)
