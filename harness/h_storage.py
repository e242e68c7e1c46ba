"""Saving and loading."""
import os
import threading

import numpy as np
import pandas as pd

import qtune.autotuner
import qtune.history
import qtune.storage
from harness.common import FakeExperiment, load, make_target, same_thing, save_and_load, scratch, series, stepping
from qtune.autotuner import Autotuner
from qtune.gradient import FiniteDifferencesGradientEstimator
from qtune.parameter_tuner import SubsetTuner
from qtune.solver import NewtonSolver
from qtune.storage import AsynchronousHDF5Writer, HDF5Serializable
from symx.ctx import harness


class Node(metaclass=HDF5Serializable):
    """Holds its constructor arguments; to_hdf5 returns temporaries if asked to."""

    def __init__(self, a=None, b=None, fresh=False):
        self.a, self.b, self.fresh = a, b, bool(fresh)

    def to_hdf5(self):
        if self.fresh:
            return dict(a=self.a.copy(), b=self.b.copy(), fresh=self.fresh)
        return dict(a=self.a, b=self.b, fresh=self.fresh)


KINDS = ['float', 'int', 'bool', 'str', 'none', 'series', 'strings', 'frame', 'array', 'matrix', 'dict', 'list', 'tuple', 'node', 'fresh',
         'empty list', 'empty dict', 'empty series']


def build(ctx, kind, name, depth=1):
    if kind == 'float':
        return ctx.maybe_nan(name)
    if kind == 'int':
        return 7
    if kind == 'bool':
        return ctx.flag(name + '_b')
    if kind == 'str':
        return 'text \u00fc'
    if kind == 'none':
        return None
    if kind == 'series':
        return series(['b', 'a', 'c'], [ctx.real(name + '_0'), ctx.real(name + '_1'), ctx.maybe_nan(name + '_2')])
    if kind == 'strings':
        return series(['p', 'q'], ['one', 'two'])
    if kind == 'frame':
        return pd.DataFrame([[ctx.real('%s_%d%d' % (name, i, j)) for j in range(2)] for i in range(3)], index=['z', 'x', 'y'], columns=['v', 'u'])
    if kind == 'array':
        return np.array([ctx.real(name + '_0'), ctx.real(name + '_1')], dtype=object if ctx.symbolic else float)
    if kind == 'matrix':
        return np.array([[ctx.real('%s_%d%d' % (name, i, j)) for j in range(2)] for i in range(3)], dtype=object if ctx.symbolic else float)
    if kind == 'empty list':
        return []
    if kind == 'empty dict':
        return {}
    if kind == 'empty series':
        return pd.Series(dtype=float)
    if kind == 'fresh':
        return [Node(series(['a'], [ctx.real('%s_%d' % (name, i))]), series(['b', 'c'], [float(i), ctx.real('%s_%d_' % (name, i))]), True) for i in range(3)]
    sub = [build(ctx, k, '%s%d' % (name, i), 0) for i, k in enumerate(['series', 'float', 'str'] if depth else ['float'])]
    if kind == 'dict':
        return {('key %d' % i): s for i, s in enumerate(sub)}
    if kind == 'list':
        return sub + [None, 'text', 3]
    if kind == 'tuple':
        return tuple(sub) + (sub[0],)
    if kind == 'node':
        return Node(sub[0], sub)
    raise ValueError(kind)


@harness('C18', quick=[dict(first=KINDS), dict(first=['series', 'list', 'node', 'frame', 'fresh', 'dict'], second=['series', 'node', 'tuple', 'strings', 'fresh', 'str'])],
         thorough=[dict(first=KINDS, second=KINDS)], expect=['a loaded object is the saved one'], max_paths=20000, sample_every=11, replays=120)
def graph(ctx, first, second=('none',)):
    """Two things inside containers, possibly the same object twice."""
    a = build(ctx, ctx.choice('first', first), 'a')
    b = a if ctx.flag('shared') else build(ctx, ctx.choice('second', second), 'b')
    inner = {'x': a, 'list': [b, (a, b)]}
    data = ctx.choice('outer', [inner, [inner, b], Node(inner, b)])
    got = save_and_load(data)
    same_thing(ctx, 'a loaded object is the saved one', got, data)


@harness('C18', quick=[dict(n=12)], thorough=[dict(n=120)], expect=['the order of sequences is kept'])
def long_list(ctx, n):
    data = [series(['a'], [ctx.real('v%d' % i)]) for i in range(n)]
    got = save_and_load(ctx.choice('kind', [list, tuple])(data))
    ctx.claim('the order of sequences is kept (length)', len(got) == n)
    for a, b in zip(got, data):
        ctx.close('the order of sequences is kept', a['a'], b['a'])


@harness('C18', expect=['several objects share a file', 'reserved objects are replaced'])
def one_file(ctx):
    x, y = ctx.real('x'), ctx.real('y')
    exp, other = FakeExperiment({'g': 0.}), FakeExperiment({'g': 1.})
    with scratch() as d:
        path = os.path.join(d, 'f.hdf5')
        deep = ctx.flag('deep')
        obj = Node(exp, [exp, series(['v'], [x])])
        qtune.storage.to_hdf5(path, 'first', {'k': obj} if deep else obj, reserved={'experiment': exp})
        qtune.storage.to_hdf5(path, 'second', series(['v'], [y]))
        got = load(path, {'experiment': other})
    ctx.claim('several objects share a file (names)', {'first', 'second'} <= set(got))
    ctx.close('several objects share a file', got['second']['v'], y)
    node = got['first']['k'] if deep else got['first']
    ctx.claim('reserved objects are replaced', node.a is other and node.b[0] is other)
    ctx.close('several objects share a file', node.b[1]['v'], x)


@harness('C18', expect=['all entries of all files are read', 'the tuner of a file is loaded'])
def readers(ctx):
    """The functions that read whole files: of one or several tunings, possibly of several objects."""
    v = [ctx.real('v%d' % i) for i in range(4)]
    exp, other = FakeExperiment({'g': v[0]}), FakeExperiment({'g': v[1]})
    with scratch() as d:
        files = [os.path.join(d, n) for n in ('one.hdf5', 'two.hdf5')]
        tuner = SubsetTuner([], ['g'], solver=NewtonSolver(make_target(desired=series(['p'], [v[2]]), tolerance=series(['p'], [1.])), [FiniteDifferencesGradientEstimator(current_position=series(['g'], [v[0]]), epsilon=1.)], series(['g'], [v[0]])),
                            last_parameter_values=series(['p'], [v[3]]), last_parameters_variances=series(['p'], [1.]))
        auto = Autotuner(exp, [tuner], current_tuner_index=1)
        qtune.storage.to_hdf5(files[0], 'autotuner', auto, reserved={'experiment': exp})
        names = ctx.choice('names', [['a', 'z'], ['z', 'a']])
        for n, x in zip(names, v[2:]):
            qtune.storage.to_hdf5(files[1], n, Node(series(['x'], [x]), exp), reserved={'experiment': exp})
        some = ctx.choice('files', [files, files[::-1], tuple(files), files[:1], files[0], files[1]])
        got = qtune.history.read_files(some, {'experiment': other})
        want = (['autotuner'] if some != files[1] else []) + (sorted(names) if some not in (files[0], files[:1]) else [])
        ctx.claim('all entries of all files are read', sorted(n for n, _ in got) == sorted(want))
        for n, x in got:
            if n == 'autotuner':
                ctx.claim('all entries of all files are read (tuner)', x._experiment is other and x.current_tuner_index == 1)
            elif n in names:
                ctx.claim('all entries of all files are read (reserved)', x.b is other)
                ctx.close('all entries of all files are read', x.a['x'], v[2 + names.index(n)])
        new = qtune.autotuner.load_auto_tuner(files[0], {'experiment': other})
        ctx.claim('the tuner of a file is loaded', isinstance(new, Autotuner) and new.reserved['experiment'] is other and new.is_tuning_complete())
        ctx.close('the tuner of a file is loaded', new.tuning_hierarchy[0].solver.target.desired['p'], v[2])
        ctx.close('the tuner of a file is loaded', new.tuning_hierarchy[0].solver.current_position['g'], v[0])
        ctx.raises('a tuner is not loaded without an experiment', AssertionError, lambda: qtune.autotuner.load_auto_tuner(files[0], {}))


@harness('C18', expect=['saving does not change the object'])
def unchanged(ctx):
    s = series(['b', 'a'], [ctx.real('x'), ctx.maybe_nan('y')])
    f = pd.DataFrame([[ctx.real('z')]], index=['i'], columns=['c'])
    vals = [list(s.values), f.iloc[0, 0]]
    obj = Node(s, [f, {'k': s}])
    save_and_load(obj)
    ctx.claim('saving does not change the object', obj.a is s and obj.b[0] is f and obj.b[1]['k'] is s and list(s.index) == ['b', 'a'])
    for p, q in zip(s.values, vals[0]):
        ctx.close('saving does not change the object', p, q)
    ctx.close('saving does not change the object', f.iloc[0, 0], vals[1])


# ---- C24 ---------------------------------------------------------------------------------------------------------
@harness('C24', quick=[dict(writes=2), dict(writes=3)], thorough=[dict(writes=4), dict(writes=5)],
         expect=['every file holds the state at its write', 'nothing is lost'])
def writer_schedules(ctx, writes):
    """The state changes between the writes and while the writer is behind; every schedule of the writer thread."""
    exp = FakeExperiment({'g': 0.})
    state = Node(series(['v', 'w'], [0., 0.]), [exp, {'count': 0}])
    want = []
    with scratch() as d:
        with stepping() as queues:
            writer = AsynchronousHDF5Writer(reserved={'experiment': exp}, multiprocess=False)
        try:
            for k in range(writes):
                v = ctx.real('v%d' % k)
                if ctx.flag('in place %d' % k):
                    state.a['v'] = v
                    state.b[1]['count'] = k
                else:
                    state.a = series(['v', 'w'], [v, 0.])
                    state.b = [exp, {'count': k}]
                path = os.path.join(d, '%d.hdf5' % k)
                writer.write(state, path, name='state')
                want.append((path, v))
                if ctx.flag('the writer works after %d' % k):
                    queues[-1].step()
            if ctx.flag('restart'):
                with stepping() as queues:
                    writer.restart()
                path = os.path.join(d, 'last.hdf5')
                writer.write(state, path, name='state')
                want.append((path, want[-1][1]))
            last = ctx.real('after')
            state.a['v'] = last
            writer.join()
            ctx.raises('a stopped writer refuses', RuntimeError, lambda: writer.write(state, os.path.join(d, 'refused.hdf5')))
            for k, (path, v) in enumerate(want):
                ok, got = ctx.completes('nothing is lost', lambda: load(path, {'experiment': exp})['state'])
                if ctx.symbolic:
                    ctx.claim('nothing is lost', ok)
                if ok:
                    ctx.close('every file holds the state at its write', got.a['v'], v)
                    ctx.claim('every file holds the state at its write (count)', got.b[1]['count'] == min(k, writes - 1) and got.b[0] is exp)
            ctx.claim('the state is not copied back', state.b[0] is exp)
            ctx.close('the state is not copied back', state.a['v'], last)
        finally:
            for q in queues:
                q.close()


@harness('C24', quick=[dict(writes=3)], thorough=[dict(writes=4)], expect=['the other states are written', 'joining ends'])
def writer_faults(ctx, writes):
    """Some of the writes fail: the others are not affected, and nobody waits forever."""
    exp = FakeExperiment({'g': 0.})
    with scratch() as d:
        with stepping() as queues:
            writer = AsynchronousHDF5Writer(reserved={'experiment': exp}, multiprocess=False)
        want = []
        try:
            for k in range(writes):
                v = ctx.real('v%d' % k)
                fault = ctx.choice('fault%d' % k, ['none', 'no such directory', 'not to be saved'])
                path = os.path.join(d, 'missing' if fault == 'no such directory' else '', '%d.hdf5' % k)
                ok, _ = ctx.completes('every write is accepted', lambda: writer.write(
                    Node(series(['v'], [v]), threading.Lock if fault == 'not to be saved' else exp), path, name='state'))
                if not ok:
                    return
                if fault == 'none':
                    want.append((path, v))
                if ctx.flag('the writer works after %d' % k):
                    queues[-1].step()
            ok, _ = ctx.completes('joining ends', writer.restart if ctx.flag('restart') else writer.join)
            ctx.claim('joining ends', ok)
            for path, v in want:
                ok, got = ctx.completes('the other states are written', lambda: load(path, {'experiment': exp})['state'])
                ctx.claim('the other states are written', ok)
                if ok:
                    ctx.close('the other states are written', got.a['v'], v)
        finally:
            for q in queues:
                q.close()
