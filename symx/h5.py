"""Hierarchical data store standing for an HDF5 file.

In symbolic mode the classes below replace h5py (contents live in memory, so they can hold
symbolic values); in concrete mode a real file is used."""
import os
import tempfile
from contextlib import contextmanager

import numpy as np


class Attrs(dict):
    pass


class Dataset:
    def __init__(self, data, name=""):
        self.data, self.name, self.attrs = data, name, Attrs()

    @property
    def dtype(self):
        return getattr(self.data, "dtype", np.dtype(object))

    @property
    def shape(self):
        return np.shape(self.data)

    def __getitem__(self, k):
        d = self.data
        if isinstance(d, np.ndarray) and d.ndim:
            r = d[k]
            return r.copy() if isinstance(r, np.ndarray) else r
        return d

    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype)

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        return iter(self.data)


def stored(data):
    """what is read back after storing data"""
    from .core import Sym
    if data is None:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(data, str):
        return data.encode("utf-8")
    if isinstance(data, (bytes, np.bytes_, Sym)):
        return data
    if isinstance(data, (bool, np.bool_)):
        return np.bool_(data)
    if isinstance(data, int):
        return np.int64(data)
    if isinstance(data, float):
        return np.float64(data)
    if isinstance(data, (list, tuple)):
        if any(isinstance(v, Sym) for v in data):
            o = np.empty(len(data), dtype=object)
            o[:] = list(data)
            return o
        if data and all(isinstance(v, str) for v in data):
            return np.array([v.encode("utf-8") for v in data], dtype=object)
    a = np.array(data, subok=False)
    if a.dtype.kind == "U":
        raise TypeError("No conversion path for dtype: %r" % a.dtype)
    if a.dtype.names and any(a.dtype[n].kind == "U" for n in a.dtype.names):
        raise TypeError("No conversion path for dtype: %r" % a.dtype)
    if a.dtype == object:
        for v in a.reshape(-1):
            if not isinstance(v, (Sym, int, float, bytes)):
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if a.ndim == 0:
        return a.item() if a.dtype == object else a[()]
    return a


class Group:
    def __init__(self, name="", track_order=False):
        self.d, self.name, self.attrs, self.track_order = {}, name, Attrs(), track_order

    def _parts(self, k):
        return [p for p in str(k).split("/") if p]

    def create_group(self, name, track_order=None):
        g = self
        parts = self._parts(name)
        for p in parts[:-1]:
            g = g.d.setdefault(p, Group(p))
        if parts[-1] in g.d:
            raise ValueError("Unable to create group (name already exists)")
        n = Group(parts[-1], bool(track_order))
        g.d[parts[-1]] = n
        return n

    def require_group(self, name):
        return self.d[name] if name in self.d else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        g = self
        parts = self._parts(name)
        for p in parts[:-1]:
            g = g.d.setdefault(p, Group(p))
        if parts[-1] in g.d:
            raise ValueError("Unable to create dataset (name already exists)")
        v = stored(data)
        if dtype is not None and np.dtype(dtype).kind == "S":
            v = np.array(v, dtype=dtype)
        if shape is not None and np.shape(v) != tuple(np.atleast_1d(shape) if not isinstance(shape, tuple) else shape):
            v = np.asarray(v).reshape(shape)
        n = Dataset(v, parts[-1])
        g.d[parts[-1]] = n
        return n

    def __setitem__(self, k, v):
        if isinstance(v, (Group, Dataset)):
            self.d[k] = v
        else:
            self.create_dataset(k, data=v)

    def __getitem__(self, k):
        g = self
        for p in self._parts(k):
            if not isinstance(g, Group) or p not in g.d:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % k)
            g = g.d[p]
        return g

    def __delitem__(self, k):
        del self.d[k]

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def keys(self):
        # groups are listed alphabetically unless they track the order of creation
        return list(self.d) if self.track_order else sorted(self.d)

    def items(self):
        return [(k, self.d[k]) for k in self.keys()]

    def values(self):
        return [self.d[k] for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.d)

    def get(self, k, default=None):
        return self[k] if k in self else default


FILES = {}          # key written in the file -> (path, contents); files can thus be removed and copied


def copied(x):
    if isinstance(x, Dataset):
        n = Dataset(x.data.copy() if isinstance(x.data, np.ndarray) else x.data, x.name)
    else:
        n = Group(x.name, x.track_order)
        n.d = {k: copied(v) for k, v in x.d.items()}
    n.attrs.update(x.attrs)
    return n


class File(Group):
    def __init__(self, name, mode="r", **k):
        super().__init__("/")
        name = os.path.abspath(str(name))
        self.filename, self.mode = name, mode
        if mode not in ("r", "r+", "a", "w", "w-", "x"):
            raise ValueError("Invalid mode")
        there = os.path.exists(name)
        if mode in ("r", "r+") and not there or mode in ("w-", "x") and there:
            raise FileNotFoundError("Unable to open file " + name) if not there else FileExistsError("Unable to create file " + name)
        d = {}
        if there and mode in ("r", "r+", "a"):
            with open(name) as f:
                key = f.read()
            if key not in FILES:
                raise OSError("Unable to open file (file signature not found)")
            path, d = FILES[key]
            if path != name:
                d = {k: copied(v) for k, v in d.items()}
                there = False
        else:
            there = False
        if not there and mode != "r":
            key = "symx-%d" % len(FILES)
            FILES[key] = name, d
            with open(name, "w") as f:
                f.write(key)
        self.d = d

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@contextmanager
def store(c):
    """path of a file to write and read with h5py"""
    with tempfile.TemporaryDirectory() as d:
        from . import shims
        if shims.IN_PLACE:
            import h5py
            FILES.clear()
            for n, k in (("Dataset", Dataset), ("Group", Group), ("File", File)):
                c.setattr(h5py, n, k)
        yield os.path.join(d, "out.h5")
