"""An HDF5 store in memory for symbolic execution.  Replays use the real h5py, which keeps this model honest."""
import h5py as real
import os

import numpy as np
import pandas as pd

from symx import core

FILES = {}


def _store(data, dtype=None):
    """data as h5py would store it: an array or a scalar."""
    from symx import patches
    if isinstance(data, Reference):
        return data
    if dtype is not None:
        dtype = np.dtype(dtype)
    arr = data.to_numpy() if isinstance(data, (pd.Series, pd.DataFrame, pd.Index)) else patches.ORIG['np.array'](data, dtype=object if isinstance(data, (core.Sym, core.SymBool)) or patches.has_sym(data) else None)
    if dtype is not None and real.check_dtype(vlen=dtype) is str:
        flat = arr.ravel().tolist() if arr.shape else [arr[()]]
        if not all(isinstance(x, (str, bytes)) for x in flat):
            raise TypeError("Can't implicitly convert non-string objects to strings")
        out = np.empty(arr.shape, dtype=object)
        for i, k in enumerate(np.ndindex(*arr.shape)):
            out[k] = flat[i] if isinstance(flat[i], bytes) else flat[i].encode()
        return out
    if arr.dtype.kind == 'U':
        if arr.shape == ():
            return np.array(str(arr[()]).encode(), dtype=object)
        raise TypeError('No conversion path for dtype: %r' % arr.dtype)
    if arr.dtype == object:
        if patches.has_sym(arr):
            if any(isinstance(x, str) or x is None for x in arr.ravel()):
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            return arr.copy()
        try:
            if any(isinstance(x, (str, bytes)) or x is None for x in arr.ravel()):
                raise TypeError
            return arr.astype(float)
        except (TypeError, ValueError):
            raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if dtype is not None and dtype != object:
        return arr.astype(dtype)
    return np.array(arr)


class Reference:
    def __init__(self, target):
        self.target = target


class Attributes(dict):
    def create(self, name, data, shape=None, dtype=None):
        dict.__setitem__(self, name, self._value(data, dtype))

    def __setitem__(self, name, data):
        dict.__setitem__(self, name, self._value(data))

    @staticmethod
    def _value(data, dtype=None):
        if isinstance(data, str):
            return data
        v = _store(data, dtype)
        if isinstance(v, np.ndarray) and v.dtype == object:
            out = np.empty(v.shape, dtype=object)
            for k in np.ndindex(*v.shape):
                out[k] = v[k].decode() if isinstance(v[k], bytes) else v[k]
            return out
        return v


class HLObject:
    def __init__(self, name):
        self.attrs = Attributes()
        self.name = name
        self.id = object()

    @property
    def ref(self):
        return Reference(self)


class Dataset(HLObject):
    def __init__(self, name, value, empty=False):
        super().__init__(name)
        self._value, self._empty = value, empty

    @property
    def shape(self):
        return None if self._empty else np.shape(self._value)

    @property
    def dtype(self):
        return np.asarray(self).dtype

    def __array__(self, dtype=None, copy=None):
        if self._empty:
            return np.array(real.Empty('f'), dtype=object)
        if isinstance(self._value, Reference):
            a = np.empty((), dtype=object)
            a[()] = self._value
            return a
        a = np.array(self._value)
        return a.astype(dtype) if dtype is not None and dtype != a.dtype else a

    def __getitem__(self, k):
        if self._empty:
            return real.Empty('f')
        if isinstance(self._value, Reference):
            return self._value
        return np.array(self._value)[k] if np.shape(self._value) else self._value[k]

    def __len__(self):
        return len(self._value)


class Group(HLObject):
    def __init__(self, name):
        super().__init__(name)
        self._members = {}

    def _path(self, name, create=False):
        if not isinstance(name, (str, bytes)):
            raise TypeError('A name should be string or bytes, not %s' % type(name))
        name = name.decode() if isinstance(name, bytes) else name
        node, parts = self, [p for p in name.split('/') if p]
        for p in parts[:-1]:
            if p not in node._members:
                if not create:
                    raise KeyError(name)
                node._members[p] = Group(node.name.rstrip('/') + '/' + p)
            node = node._members[p]
        if not parts:
            raise ValueError('no name')
        return node, parts[-1]

    def _add(self, name, make):
        node, last = self._path(name, True)
        if last in node._members:
            raise ValueError('Unable to create: name already exists')
        obj = node._members[last] = make(node.name.rstrip('/') + '/' + last)
        return obj

    def create_group(self, name):
        return self._add(name, Group)

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        if data is None:
            if dtype is None:
                raise TypeError('One of data, shape or dtype must be specified')
            if shape is None:
                return self._add(name, lambda n: Dataset(n, None, True))
            return self._add(name, lambda n: Dataset(n, np.zeros(shape, dtype)))
        value = _store(data, dtype)
        if shape is not None and not isinstance(value, Reference) and tuple(np.shape(value)) != tuple(shape):
            raise ValueError('Shape tuple is incompatible with data')
        return self._add(name, lambda n: Dataset(n, value))

    def __getitem__(self, name):
        if isinstance(name, Reference):
            return name.target
        node, last = self._path(name)
        if last not in node._members:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        return node._members[last]

    def __contains__(self, name):
        try:
            self[name]
            return True
        except KeyError:
            return False

    def __iter__(self):
        return iter(sorted(self._members))

    def __len__(self):
        return len(self._members)

    def keys(self):
        return sorted(self._members)

    def items(self):
        return [(k, self._members[k]) for k in sorted(self._members)]

    def values(self):
        return [self._members[k] for k in sorted(self._members)]


class File(Group):
    def __new__(cls, name, mode='r', *args, **kw):
        if mode in ('r', 'r+'):
            if name not in FILES:
                raise FileNotFoundError('Unable to open file %s' % name)
            return FILES[name]
        if mode in ('w-', 'x') and name in FILES:
            raise FileExistsError(name)
        if mode == 'w' or name not in FILES:
            FILES[name] = super().__new__(cls)
            Group.__init__(FILES[name], '/')
            FILES[name].filename = name
            if os.path.isdir(os.path.dirname(str(name))):        # directories can be listed
                open(name, 'a').close()
        return FILES[name]

    def __init__(self, *args, **kw):
        pass

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


Empty = real.Empty


def __getattr__(name):
    return getattr(real, name)
