"""MATLAB, as far as the back-ends talk to it: an engine that records commands and answers with values of the harness."""
import sys
import types

import numpy as np

try:
    import matlab.engine                                      # noqa: F401
except ImportError:
    class MatlabExecutionError(Exception):
        pass

    class MatlabEngine:
        pass

    _engine = types.ModuleType('matlab.engine')
    _engine.MatlabExecutionError, _engine.MatlabEngine = MatlabExecutionError, MatlabEngine
    _engine.start_matlab = _engine.connect_matlab = lambda *args, **kw: None
    _matlab = types.ModuleType('matlab')
    _matlab.engine = _engine
    sys.modules['matlab'], sys.modules['matlab.engine'] = _matlab, _engine

import matlab.engine                                          # noqa: E402
import qtune.mat2py                                           # noqa: E402
BROKEN = None
try:
    import qtune.sm                                           # noqa: E402
    import qtune.sm_tune_qqd                                  # noqa: E402
except Exception as err:
    BROKEN = '%s: %s' % (type(err).__name__, err)
from symx.core import Sym                                     # noqa: E402


class _FloatType(type):
    """float, except that symbolic reals stay what they are."""

    def __call__(cls, *args):
        return args[0] if args and isinstance(args[0], Sym) else float(*args)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __eq__(cls, other):
        return other is float or other is cls

    def __hash__(cls):
        return hash(float)


class SymbolicFloat(metaclass=_FloatType):
    pass


def prepare(ctx):
    if ctx.symbolic:
        for m in (qtune.mat2py,) if BROKEN else (qtune.sm, qtune.sm_tune_qqd, qtune.mat2py):
            m.float = SymbolicFloat
    return not BROKEN


class Names:
    """engine.qtune: functions by name."""

    def __init__(self, fn):
        self.__dict__['fn'] = fn

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *args, **kw: self.fn(name, args, kw)


class Engine(matlab.engine.MatlabEngine):
    def __init__(self, gates=None, answer=None, name='engine', pid=1., on_path=True):
        self.gates, self.answer, self.name, self.pid = dict(gates or {}), answer, name, pid
        self.calls, self.sent = [], []
        self.on_path, self.paths = on_path, []
        self.variables = {'smdata'}
        self.matlab = types.SimpleNamespace(engine=types.SimpleNamespace(engineName=lambda: self.name))
        self.qtune = Names(self._qtune)
        self.workspace = {}

    def feature(self, what):
        return self.pid

    def exist(self, name, *args):
        return 1. if name in self.variables else 0.

    def addpath(self, path):
        self.paths.append(path)
        self.on_path = True

    def _qtune(self, name, args, kw):
        if name == 'find_qtune':
            if not self.on_path:
                raise matlab.engine.MatlabExecutionError('unknown')
            return self.paths[-1] if self.paths else qtune.sm.matlab_files_path()
        if name in ('read_gate_voltages', 'read_qqd_gate_voltages'):
            return dict(self.gates)
        if name in ('set_gates_v_pretuned', 'set_qqd_gate_voltages'):
            new = dict(args[0])
            self.sent.append((name, new))
            for g in new:
                self.gates[g] = self.answer(g, new[g]) if self.answer else new[g]
            return dict(self.gates)
        self.calls.append((name, args, kw))
        return self.answer(name, args)


def instance(engine):
    """A special measure instance connected to the engine."""
    qtune.sm.SpecialMeasureMatlab.connected_engines.clear()
    real = matlab.engine.connect_matlab
    matlab.engine.connect_matlab = lambda *args: engine
    try:
        return qtune.sm.SpecialMeasureMatlab(connect=engine.name)
    finally:
        matlab.engine.connect_matlab = real


def plain_float(x):
    return type(x) is float or isinstance(x, Sym)


class FunctionView:
    """mat2py.MATLABFunctionView"""
    made = []

    def __init__(self, engine, eval_str):
        self.engine, self.eval_str = engine, eval_str

    def __call__(self, *args, **kw):
        FunctionView.made.append((self.engine, self.eval_str, args, kw))
        return self.engine.answer(self.eval_str, args)


class viewing:
    def __enter__(self):
        del FunctionView.made[:]
        self.real = qtune.mat2py.MATLABFunctionView
        self.names = [(m, k) for m in (qtune.mat2py, qtune.sm_tune_qqd, qtune.sm) for k, v in vars(m).items() if v is self.real]
        for m, k in self.names:
            setattr(m, k, FunctionView)
        return FunctionView.made

    def __exit__(self, *exc):
        for m, k in self.names:
            setattr(m, k, self.real)


def generic(ctx, value):
    """A number as numpy hands it out."""
    return value if isinstance(value, Sym) else np.float64(value)
