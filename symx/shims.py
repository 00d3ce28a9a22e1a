"""Environment of the code under test in symbolic mode.

``install()`` makes every module of the package under test see a numpy/scipy/math in
which array *creation* yields object arrays of :class:`Sym` and in which the compiled
kernels that cannot run on objects (``isnan``, ``interp1d``, ``binned_statistic`` ...)
are replaced by short models on object arrays.  Everything else is the real library.
The models are validated against the real libraries by ``symx.selftest`` and by the
concrete traces every check replays.
"""
import builtins
import math
import sys
import types

import numpy as np
import astropy.units as u
from astropy.units import Quantity
from astropy.table import Column

from . import core
from . import core
from .core import Sym, as_sym, EngineLimit

PKG = "exorad"
_real_import = builtins.__import__


# ------------------------------------------------------------------- small helpers
def is_obj(x):
    return isinstance(x, Sym) or (hasattr(x, "dtype") and getattr(x, "dtype", None) == object)


def has_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, Sym) for v in x.ravel().view(np.ndarray))
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def objarr(x):
    """plain object ndarray of Sym from anything numeric"""
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.array(x, dtype=object, subok=False)
    out = np.empty(a.shape, dtype=object)
    f, g = out.reshape(-1), a.reshape(-1)
    for k in range(g.size):
        v = g[k]
        if isinstance(v, Quantity):
            v = v.value
        if isinstance(v, np.ndarray) and v.size == 1:
            # what assigning an object array of one value to an element leaves there
            v = v.item()
        s = as_sym(v)
        if s is None:
            raise EngineLimit("non-numeric element %r" % (type(v),))
        f[k] = s
    return f.reshape(a.shape)


def tofloat(x):
    """float ndarray when every element is a constant, else None"""
    if isinstance(x, Quantity):
        x = x.value
    if isinstance(x, Sym):
        return x.const if x.const is not None else None
    a = np.array(x, subok=False)
    if a.dtype != object:
        return a
    out = np.empty(a.shape)
    f = out.reshape(-1)
    for k, v in enumerate(a.reshape(-1)):
        s = as_sym(v)
        if s is None or s.const is None:
            return None
        f[k] = s.const
    return out


def norm(x):
    """Python floats inside an object array become Sym constants (units kept)."""
    if isinstance(x, Quantity):
        if x.dtype == object:
            return Quantity(objarr(x.value), x.unit, dtype=object, copy=False)
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return objarr(x)
        except EngineLimit:
            core.pending.pop()
            return x
    return x


def unbox(a):
    return a.item() if isinstance(a, np.ndarray) and a.ndim == 0 and type(a) is np.ndarray else a


# --------------------------------------------------------------------- numpy proxy
class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__.update(over)

    def __getattr__(self, k):
        if k.startswith("__") and k not in ("__version__",):
            raise AttributeError(k)
        return getattr(self._real, k)


FLOATS = (float, np.float64, np.float32, np.float16, np.inexact, np.floating)


def _floaty(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _filled(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(as_sym(v))
    return a


def np_ones(shape, dtype=None, order="C", **k):
    return _filled(shape, 1.0) if _floaty(dtype) else np.ones(shape, dtype=dtype)


def np_zeros(shape, dtype=None, order="C", **k):
    return _filled(shape, 0.0) if _floaty(dtype) else np.zeros(shape, dtype=dtype)


def np_empty(shape, dtype=None, order="C", **k):
    return _filled(shape, 0.0) if _floaty(dtype) else np.empty(shape, dtype=dtype)


def np_full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, Quantity):
        fill_value = fill_value.value  # numpy.full drops the unit
    if not _floaty(dtype) or (dtype is None and as_sym(fill_value) is None):
        return np.full(shape, fill_value, dtype=dtype)
    a = np.empty(shape, dtype=object)
    fv = fill_value
    if isinstance(fv, np.ndarray) and fv.ndim:
        a[...] = objarr(fv)
    else:
        a.fill(as_sym(fv))
    return a


def _bcast(q, shape):
    return Quantity(np.broadcast_to(objarr(q.value), shape).copy(), q.unit, dtype=object)


def _like(fillv):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        b = np.asanyarray(a)
        sh = b.shape if shape is None else shape
        kind = b.dtype.kind if dtype is None else np.dtype(dtype).kind
        if kind not in "fO":
            return np.full(sh, int(fillv), dtype=b.dtype if dtype is None else dtype)
        r = _filled(sh, fillv)
        return Quantity(r, a.unit, dtype=object) if isinstance(a, Quantity) and subok else r
    return f


def np_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    b = np.asanyarray(a)
    sh = b.shape if shape is None else shape
    if isinstance(a, Quantity) and subok:
        v = fill_value.to(a.unit).value if isinstance(fill_value, Quantity) else fill_value
        return Quantity(np_full(sh, v), a.unit, dtype=object)
    return np_full(sh, fill_value, dtype)


def _arr(fn):
    def f(obj, dtype=None, *a, **k):
        if dtype is not None and has_sym(obj) and _floaty(dtype):
            dtype = object
        if isinstance(obj, (list, tuple)) and has_sym(obj) and not isinstance(obj, np.ndarray):
            dtype = object if dtype is None else dtype
        return fn(obj, dtype, *a, **k)
    return f


def _pred(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if not is_obj(x) and not has_sym(x):
            return real(x, *a, **k)
        o = objarr(x.value if isinstance(x, Quantity) else x)
        r = np.array([getattr(v, name)() for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
        return bool(r) if r.ndim == 0 else r
    return f


def _uf1(name):
    real = getattr(np, name)

    def f(x, *a, **k):
        if is_obj(x) or has_sym(x):
            if isinstance(x, (list, tuple)):
                x = objarr(x)
            if isinstance(x, Column) and x.dtype == object:
                o = x.copy()
                o[:] = objarr(np.asarray(x))
                return real(o, *a, **k)
            return real(norm(x), *a, **k)
        return real(x, *a, **k)
    return f


def np_round(a, decimals=0, out=None):
    if not is_obj(a) and not has_sym(a):
        return np.round(a, decimals)
    q = a.unit if isinstance(a, Quantity) else None
    o = objarr(a.value if q is not None else a)
    r = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(o.shape):
        v = as_sym(o[idx])
        r[idx] = v if v.p is None else v.__round__(decimals)
    return Quantity(r, q, dtype=object) if q is not None else unbox(r)


def np_modf(x, *a, **k):
    if not is_obj(x):
        return np.modf(x, *a, **k)
    q = x.unit if isinstance(x, Quantity) else None
    if q is not None:
        x = x.to(u.dimensionless_unscaled).value
    o = objarr(x)
    i = np.empty(o.shape, dtype=object)
    for idx in np.ndindex(o.shape):
        v = o[idx]
        i[idx] = v.trunc() if v.const is None else as_sym(float(np.trunc(v.const)))
    fr = o - i
    fr, i = np.asarray(fr, dtype=object), np.asarray(i, dtype=object)
    if q is not None:
        return (Quantity(fr, u.dimensionless_unscaled, dtype=object), Quantity(i, u.dimensionless_unscaled, dtype=object))
    return unbox(fr), unbox(i)


def np_mean(a, axis=None, *args, **k):
    if is_obj(a) and getattr(a, "size", 1) == 0:
        n = as_sym(float("nan"))
        return Quantity(n, a.unit, dtype=object) if isinstance(a, Quantity) else n
    if is_obj(a) or has_sym(a):
        a = norm(a if isinstance(a, np.ndarray) else objarr(a))
    return np.mean(a, axis, *args, **k)


def np_nanmean(a, axis=None, **k):
    if not is_obj(a):
        return np.nanmean(a, axis, **k)
    m = ~_pred("isnan")(a)
    return np_mean(a[m])


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not any(is_obj(v) or has_sym(v) for v in (x, xp, fp, left, right)):
        return np.interp(x, xp, fp, left, right, period)
    un = None
    if isinstance(x, Quantity) or isinstance(xp, Quantity):
        xu = xp.unit if isinstance(xp, Quantity) else u.dimensionless_unscaled
        x = u.Quantity(x).to(xu).value
        xp = u.Quantity(xp).value
    if isinstance(fp, Quantity):
        un, fp = fp.unit, fp.value
    xo, xpo, fo = objarr(x), objarr(xp), objarr(fp)
    lo = fo[0] if left is None else as_sym(left)
    hi = fo[-1] if right is None else as_sym(right)
    out = np.empty(xo.shape, dtype=object)
    for idx in np.ndindex(xo.shape):
        v = xo[idx]
        if v < xpo[0]:
            out[idx] = lo
        elif v > xpo[-1]:
            out[idx] = hi
        else:
            out[idx] = _lin(v, xpo, fo)
    r = out if out.ndim else out.item()
    return Quantity(r, un, dtype=object) if un is not None else r


def _lin(v, xp, fp):
    """piecewise linear value at v, xp sorted, xp[0] <= v <= xp[-1] (or extrapolating)"""
    n = len(xp)
    j = 1
    while j < n - 1 and v > xp[j]:
        j += 1
    if v == xp[j] and j < n:
        return fp[j]
    sl = (fp[j] - fp[j - 1]) / (xp[j] - xp[j - 1])
    return sl * (v - xp[j - 1]) + fp[j - 1]


def np_linspace(start, stop, num=50, *a, **k):
    if not (has_sym(start) or has_sym(stop) or is_obj(start) or is_obj(stop)):
        return np.linspace(start, stop, num, *a, **k)
    un = None
    if isinstance(start, Quantity) or isinstance(stop, Quantity):
        un = (start if isinstance(start, Quantity) else stop).unit
        start, stop = u.Quantity(start).to(un).value, u.Quantity(stop).to(un).value
    s, e = as_sym(unbox(objarr(start))), as_sym(unbox(objarr(stop)))
    endpoint = k.get("endpoint", True)
    d = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = s + (e - s) * (i / d) if d else s
    if endpoint and num > 1:
        out[-1] = e
    return Quantity(out, un, dtype=object) if un is not None else out


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, *a, **k):
    if not (is_obj(start) or is_obj(stop)):
        return np.logspace(start, stop, num, endpoint, base, *a, **k)
    y = np_linspace(start, stop, num, endpoint=endpoint)
    return np.array([as_sym(base) ** v for v in y], dtype=object)


def np_geomspace(start, stop, num=50, *a, **k):
    if not (is_obj(start) or is_obj(stop)):
        return np.geomspace(start, stop, num, *a, **k)
    return np_logspace(as_sym(start).log10(), as_sym(stop).log10(), num)


def np_arange(*a, **k):
    if not any(is_obj(v) for v in a):
        return np.arange(*a, **k)
    start, step = as_sym(0.0), as_sym(1.0)
    un = None
    v = [x for x in a]
    v = [as_sym(unbox(objarr(x))) for x in v]
    if len(v) == 1:
        stop = v[0]
    elif len(v) == 2:
        start, stop = v
    else:
        start, stop, step = v
    out = []
    i = 0
    while True:
        x = start + step * i
        if not (x < stop if step > 0 else x > stop):
            break
        out.append(x)
        i += 1
        if i > 64:
            raise EngineLimit("arange too long")
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return r


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (is_obj(a) or is_obj(b)):
        return np.isclose(a, b, rtol, atol, **k)
    if isinstance(a, Quantity) or isinstance(b, Quantity):
        a, b = u.Quantity(a), u.Quantity(b)
        b = b.to(a.unit).value
        a = a.value
    A, B = np.broadcast_arrays(objarr(a), objarr(b))
    r = np.array([bool(abs(x - y) <= as_sym(atol) + as_sym(rtol) * abs(y))
                  for x, y in zip(A.reshape(-1), B.reshape(-1))], dtype=bool).reshape(A.shape)
    return bool(r) if r.ndim == 0 else r


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np.all(np_isclose(a, b, rtol, atol, **k)))


def np_digitize(x, bins, right=False):
    if not (is_obj(x) or is_obj(bins)):
        return np.digitize(x, bins, right)
    if isinstance(x, Quantity):
        bins = u.Quantity(bins).to(x.unit).value if isinstance(bins, Quantity) else bins
        x = x.value
    xo, b = objarr(x), objarr(bins)
    out = np.empty(xo.shape, dtype=int)
    for idx in np.ndindex(xo.shape):
        k = 0
        for e in b:
            if (xo[idx] > e) if right else (xo[idx] >= e):
                k += 1
            else:
                break
        out[idx] = k
    return out if out.ndim else int(out)


def np_searchsorted(a, v, side="left", sorter=None):
    if not (is_obj(a) or is_obj(v)):
        return np.searchsorted(a, v, side, sorter)
    if isinstance(a, Quantity) or isinstance(v, Quantity):
        a = u.Quantity(a)
        v = u.Quantity(v).to(a.unit).value
        a = a.value
    if sorter is not None:
        a = np.asarray(a)[sorter]
    return np_digitize(v, a, right=(side == "left"))


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    if not (is_obj(a) or is_obj(bins) or is_obj(weights)):
        return np.histogram(a, bins, range, density, weights)
    if density or np.ndim(bins) == 0:
        raise EngineLimit("histogram form")
    w = None if weights is None else objarr(weights.value if isinstance(weights, Quantity) else weights)
    k = _binnum(objarr(a.value if isinstance(a, Quantity) else a), objarr(bins.value if isinstance(bins, Quantity) else bins))
    n = len(bins) - 1
    out = _filled(n, 0.0) if w is not None else np.zeros(n, dtype=int)
    for i, b in enumerate(k):
        if 0 <= b < n:
            out[b] = out[b] + (w[i] if w is not None else 1)
    return out, bins


def np_gradient(f, *a, **k):
    if not is_obj(f):
        return np.gradient(f, *a, **k)
    if k or len(a) > 1 or np.ndim(f) != 1:
        raise EngineLimit("gradient form")
    if a:
        F, X = f, a[0]
        uf = F.unit if isinstance(F, Quantity) else u.dimensionless_unscaled
        ux = X.unit if isinstance(X, Quantity) else u.dimensionless_unscaled
        q = isinstance(F, Quantity) or isinstance(X, Quantity)
        o, x = objarr(F.value if isinstance(F, Quantity) else F), objarr(X.value if isinstance(X, Quantity) else X)
        if x.ndim == 0:
            out = np_gradient(o) / x.item()
        else:
            h = x[1:] - x[:-1]
            out = np.empty(o.shape, dtype=object)
            for i in range(1, len(o) - 1):
                hs, hd = h[i - 1], h[i]
                out[i] = (hs * hs * o[i + 1] + (hd * hd - hs * hs) * o[i] - hd * hd * o[i - 1]) / (hs * hd * (hd + hs))
            out[0], out[-1] = (o[1] - o[0]) / h[0], (o[-1] - o[-2]) / h[-1]
        return Quantity(out, uf / ux, dtype=object) if q else out
    un = f.unit if isinstance(f, Quantity) else None
    o = objarr(f.value if un is not None else f)
    out = np.empty(o.shape, dtype=object)
    out[1:-1] = (o[2:] - o[:-2]) / 2.0
    out[0], out[-1] = o[1] - o[0], o[-1] - o[-2]
    return Quantity(out, un, dtype=object) if un is not None else out


def np_bincount(x, weights=None, minlength=0):
    if not is_obj(weights) and not has_sym(weights):
        return np.bincount(x, weights, minlength)
    w = objarr(weights.value if isinstance(weights, Quantity) else weights)
    x = [int(v) for v in x]
    out = _filled(max([minlength] + [v + 1 for v in x]), 0.0)
    for k, v in zip(x, w):
        out[k] = out[k] + v
    return out


def np_fromiter(it, dtype=None, count=-1, **k):
    v = list(it)
    if has_sym(v) and _floaty(dtype):
        return objarr(v)
    return np.fromiter(iter(v), dtype, count, **k)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not is_obj(x):
        return np.nan_to_num(x, copy, nan, posinf, neginf)
    y = norm(x).copy()
    m = _pred("isnan")(y)
    y[m] = nan
    m = _pred("isinf")(y)
    if np.any(m):
        raise EngineLimit("nan_to_num of infinity")
    return y


def _binnum(x, edges):
    """scipy/numpy histogram convention: [e_i, e_i+1), last bin closed"""
    out = []
    n = len(edges)
    for v in x.reshape(-1):
        if v.isnan():
            out.append(n)
            continue
        if v < edges[0]:
            out.append(-1)
            continue
        k = n
        for j in range(1, n):
            if v < edges[j]:
                k = j - 1
                break
        if k == n and v == edges[-1]:
            k = n - 2
        out.append(k)
    return out


def np_select_minmax(name):
    real = getattr(np, name)

    def f(a, *args, **k):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = objarr(a)
        elif isinstance(a, (list, tuple)) and any(isinstance(v, Quantity) for v in a):
            a = u.Quantity(a)
        return real(norm(a) if is_obj(a) else a, *args, **k)
    return f


def _reduce_max(a, axis, best):
    if a.size == 0:
        raise ValueError("zero-size array to reduction operation which has no identity")
    v = objarr(a)
    if axis is None or v.ndim <= 1:
        return best(list(v.reshape(-1)))
    v = np.moveaxis(v, axis, 0)
    out = np.empty(v.shape[1:], dtype=object)
    for ix in np.ndindex(*v.shape[1:]):
        out[ix] = best([v[(k,) + ix] for k in range(v.shape[0])])
    return out


def np_extreme(name):
    real = np_select_minmax(name)
    from . import core
    best = core.s_max if "max" in name else core.s_min
    if name.startswith("nan"):
        ext = best
        best = lambda v: ext([x for x in v if not as_sym(x).isnan()] or v)

    def f(a, axis=None, *args, **k):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = objarr(a)
        elif isinstance(a, (list, tuple)) and any(isinstance(v, Quantity) for v in a):
            a = u.Quantity(a)
        if args or k or not (isinstance(a, np.ndarray) and a.dtype == object):
            return real(a, axis=axis, *args, **k)
        if isinstance(a, Quantity):
            return Quantity(_reduce_max(a.value, axis, best), a.unit, dtype=object)
        return _reduce_max(np.asarray(a), axis, best)
    return f


class MinMax:
    """maximum, minimum, fmax, fmin"""

    def __init__(self, name):
        self._r = getattr(np, name)
        self._b = core.s_max if "max" in name else core.s_min

    def __call__(self, a, b, *args, **k):
        if args or k or not (has_sym(a) or has_sym(b)):
            return self._r(a, b, *args, **k)
        un = None
        if isinstance(a, Quantity) or isinstance(b, Quantity):
            a, b = u.Quantity(a), u.Quantity(b)
            un = a.unit
            a, b = a.value, b.to(un).value
        A, B = np.broadcast_arrays(objarr(a), objarr(b))
        if A.size <= 1:
            r = self._r(A, B)
        else:
            r = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(A.shape):
                r[ix] = self._b([A[ix], B[ix]])
        r = r if np.ndim(r) else unbox(r)
        return Quantity(r, un, dtype=object) if un is not None else r

    def reduce(self, a, axis=0, *args, **k):
        if args or k or not has_sym(a):
            return self._r.reduce(a, axis, *args, **k)
        if isinstance(a, (list, tuple)):
            a = u.Quantity(a) if any(isinstance(v, Quantity) for v in a) else objarr(a)
        r = _reduce_max(a.value if isinstance(a, Quantity) else a, axis, self._b)
        return Quantity(r, a.unit, dtype=object) if isinstance(a, Quantity) else r

    def __getattr__(self, k):
        return getattr(self._r, k)


def py_extreme(name):
    real = getattr(builtins, name)
    best = core.s_max if name == "max" else core.s_min

    def f(*a, **k):
        if k or (len(a) == 2) or not a:
            return real(*a, **k)
        v = list(a[0]) if len(a) == 1 else list(a)
        if len(v) > 2 and all(isinstance(x, (Sym, float, int)) for x in v) and any(isinstance(x, Sym) and x.const is None for x in v):
            return best([as_sym(x) for x in v])
        if len(v) > 2 and all(isinstance(x, Quantity) and x.ndim == 0 for x in v) and any(has_sym(x.value) for x in v):
            return Quantity(best([as_sym(unbox(x.to(v[0].unit).value)) for x in v]), v[0].unit, dtype=object)
        return real(v, **k)
    return f


def np_convolve(a, v, mode="full"):
    if not (is_obj(a) or is_obj(v)):
        return np.convolve(a, v, mode)
    un = u.dimensionless_unscaled
    q = False
    if isinstance(a, Quantity):
        un, a, q = un * a.unit, a.value, True
    if isinstance(v, Quantity):
        un, v, q = un * v.unit, v.value, True
    A, V = objarr(a), objarr(v)
    if len(A) == 0 or len(V) == 0:
        raise ValueError("v cannot be empty")
    if len(V) > len(A):
        A, V = V, A
    full = []
    for n in range(len(A) + len(V) - 1):
        t = as_sym(0.0)
        for j in range(len(V)):
            if 0 <= n - j < len(A):
                t = t + A[n - j] * V[j]
        full.append(t)
    if mode == "same":
        st = (len(V) - 1) // 2
        # numpy: centred with respect to the 'full' output
        st = (len(full) - len(A)) // 2
        full = full[st:st + len(A)]
    elif mode == "valid":
        full = full[len(V) - 1:len(A)]
    out = np.empty(len(full), dtype=object)
    out[:] = full
    return Quantity(out, un, dtype=object) if q else out


NPO = dict(
    ones=np_ones, zeros=np_zeros, empty=np_empty, full=np_full,
    ones_like=_like(1.0), zeros_like=_like(0.0), empty_like=_like(0.0), full_like=np_full_like,
    array=_arr(np.array), asarray=_arr(np.asarray), asanyarray=_arr(np.asanyarray),
    isnan=_pred("isnan"), isfinite=_pred("isfinite"), isinf=_pred("isinf"),
    modf=np_modf, mean=np_mean, nanmean=np_nanmean, interp=np_interp, linspace=np_linspace,
    logspace=np_logspace, geomspace=np_geomspace, arange=np_arange, isclose=np_isclose,
    allclose=np_allclose, digitize=np_digitize, searchsorted=np_searchsorted,
    histogram=np_histogram, gradient=np_gradient, nan_to_num=np_nan_to_num,
    convolve=np_convolve, bincount=np_bincount, fromiter=np_fromiter, round=np_round, around=np_round, round_=np_round,
)
for _n in ("sqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "exp2", "sin", "cos", "tan", "arctan", "deg2rad", "rad2deg", "radians", "degrees", "sinh", "cosh", "tanh",
           "floor", "ceil", "rint", "trunc", "fabs", "abs", "absolute", "square", "sign", "reciprocal", "power"):
    NPO[_n] = _uf1(_n)
for _n in ("max", "min", "amax", "amin", "argmin", "argmax", "sort", "argsort", "sum", "prod",
           "nanmax", "nanmin", "median", "cumsum", "diff"):
    NPO[_n] = np_select_minmax(_n)
for _n in ("max", "min", "amax", "amin", "nanmax", "nanmin"):
    NPO[_n] = np_extreme(_n)
for _n in ("maximum", "minimum", "fmax", "fmin"):
    NPO[_n] = MinMax(_n)


# --------------------------------------------------------------------------- scipy
from scipy import interpolate as _si
from scipy import stats as _ss
from scipy import signal as _sg
from scipy import integrate as _sint
import scipy as _scipy


class interp1d:
    """Model of scipy.interpolate.interp1d for symbolic samples."""

    def __new__(cls, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                fill_value=np.nan, assume_sorted=False):
        xs = np.array(x, subok=False)
        ys = np.array(y, subok=False) if not has_sym(y) else np.array(
            y if not (isinstance(y, (list, tuple)) and any(isinstance(v, Quantity) for v in y)) else y, dtype=object, subok=False)
        self = object.__new__(cls)
        self.args = (x, y, kind, axis, copy, bounds_error, fill_value, assume_sorted)
        xf, yf = tofloat(xs), tofloat(ys)
        self.xf, self.yf = xf, yf
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.kind = kind
        self.fill = fill_value
        self.bounds_error = (fill_value is np.nan or (isinstance(fill_value, float) and fill_value != fill_value)) if bounds_error is None else bounds_error
        if self.extrap:
            self.bounds_error = False
        if len(xs) != ys.shape[axis]:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        fs = has_sym(fill_value if not isinstance(fill_value, np.ndarray) else fill_value)
        self.real = None
        if xf is not None and yf is not None and not fs:
            self.real = _si.interp1d(xf, yf, kind, axis, copy, bounds_error, fill_value, assume_sorted)
        self.axis = axis
        X, Y = objarr(xs), objarr(ys)
        if axis not in (-1, ys.ndim - 1):
            Y = np.moveaxis(Y, axis, -1)
        if not assume_sorted:
            o = np.argsort(xf, kind="mergesort") if xf is not None else np.argsort(X, kind="mergesort")
            X, Y = X[o], Y[..., o]
        self.X, self.Y = X, Y
        return self

    @property
    def x(self):
        return self.X

    @property
    def y(self):
        return self.Y

    def __call__(self, xn):
        xn = np.array(xn, subok=False) if not isinstance(xn, Sym) else objarr(xn)
        xnf = tofloat(xn)
        if self.real is not None and xnf is not None:
            return self.real(np.asarray(xnf, dtype=float))
        if self.kind not in ("linear", 1):
            if self.xf is None or xnf is None:
                raise EngineLimit("non-linear spline on a symbolic grid")
            n = len(self.xf)
            o = np.argsort(self.xf, kind="mergesort")
            xs = np.asarray(self.xf)[o]
            fv = np.nan if not self.extrap else "extrapolate"
            W = _si.interp1d(xs, np.eye(n), self.kind, axis=0,
                             bounds_error=self.bounds_error, fill_value=fv)(np.asarray(xnf, dtype=float))
            out = np.empty(xn.shape, dtype=object)
            for idx in np.ndindex(xn.shape):
                w = W[idx]
                if np.any(np.isnan(w)):
                    out[idx] = as_sym(self.fill)
                else:
                    t = as_sym(0.0)
                    for k in range(n):
                        if w[k] != 0:
                            t = t + self.Y[k] * float(w[k])
                    out[idx] = t
            return out
        xo = objarr(xn)
        res = np.empty(xo.shape + self.Y.shape[:-1], dtype=object)
        X, Y = self.X, self.Y
        fl = self.fill
        if isinstance(fl, tuple):
            flo, fhi = as_sym(fl[0]), as_sym(fl[1])
        elif not self.extrap:
            flo = fhi = as_sym(unbox(objarr(fl)) if isinstance(fl, np.ndarray) else fl)
        for idx in np.ndindex(xo.shape):
            v = xo[idx]
            if v.isnan():
                res[idx] = v
                continue
            if not self.extrap:
                below = v < X[0]
                if below or v > X[-1]:
                    if self.bounds_error:
                        raise ValueError("A value in x_new is outside the interpolation range.")
                    res[idx] = flo if below else fhi
                    continue
            n = len(X)
            j = 1
            while j < n - 1 and v > X[j]:
                j += 1
            if Y.ndim == 1:
                if v == X[j]:
                    res[idx] = Y[j]
                else:
                    sl = (Y[j] - Y[j - 1]) / (X[j] - X[j - 1])
                    res[idx] = sl * (v - X[j - 1]) + Y[j - 1]
            else:
                w = (v - X[j - 1]) / (X[j] - X[j - 1])
                res[idx] = (Y[..., j] - Y[..., j - 1]) * w + Y[..., j - 1]
        return res


def binned_statistic(x, values, statistic="mean", bins=10, range=None):
    if tofloat(x) is not None and tofloat(values) is not None and (np.ndim(bins) == 0 or tofloat(bins) is not None):
        r = _ss.binned_statistic(tofloat(x), tofloat(values), statistic, bins if np.ndim(bins) == 0 else tofloat(bins), range)
        return r
    if np.ndim(bins) == 0:
        raise EngineLimit("binned_statistic with a bin count")
    X, V, B = objarr(np.array(x, subok=False)), objarr(np.array(values, subok=False)), objarr(np.array(bins, subok=False))
    ks = _binnum(X, B)
    n = len(B) - 1
    out = np.empty(n, dtype=object)
    for b in builtins.range(n):
        vs = [V[i] for i, k in enumerate(ks) if k == b]
        if statistic == "mean":
            out[b] = sum(vs[1:], vs[0]) / len(vs) if vs else as_sym(float("nan"))
        elif statistic == "sum":
            out[b] = sum(vs, as_sym(0.0))
        elif statistic == "count":
            out[b] = as_sym(float(len(vs)))
        elif statistic == "max":
            out[b] = max(vs) if vs else as_sym(float("nan"))
        elif statistic == "min":
            out[b] = min(vs) if vs else as_sym(float("nan"))
        elif statistic == "median":
            if not vs:
                out[b] = as_sym(float("nan"))
            else:
                s = sorted(vs)
                m = len(s) // 2
                out[b] = s[m] if len(s) % 2 else (s[m - 1] + s[m]) / 2
        else:
            raise EngineLimit("binned_statistic %s" % statistic)
    return _ss._binned_statistic.BinnedStatisticResult(out, np.asarray(bins), np.array(ks) + 1)


def convolve2d(in1, in2, mode="full", boundary="fill", fillvalue=0):
    a, b = tofloat(in1), tofloat(in2)
    if a is not None and b is not None:
        return _sg.convolve2d(a, b, mode, boundary, fillvalue)
    if boundary != "fill" or fillvalue != 0:
        raise EngineLimit("convolve2d boundary")
    A, B = objarr(in1), objarr(in2)
    n, m = A.shape
    p, q = B.shape
    F = np.empty((n + p - 1, m + q - 1), dtype=object)
    F.fill(as_sym(0.0))
    for i in range(n):
        for j in range(m):
            F[i:i + p, j:j + q] = F[i:i + p, j:j + q] + A[i, j] * B
    if mode == "full":
        return F
    if mode == "same":
        r, c = (p - 1) // 2, (q - 1) // 2
        return F[r:r + n, c:c + m]
    raise EngineLimit("convolve2d mode")


def fftconvolve(in1, in2, mode="full", axes=None):
    if not (is_obj(in1) or is_obj(in2)):
        return _sg.fftconvolve(in1, in2, mode, axes)
    if np.ndim(in1) == 1:
        return np_convolve(in1, in2, mode)
    return convolve2d(in1, in2, mode)


def sconvolve(in1, in2, mode="full", method="auto"):
    if not (is_obj(in1) or is_obj(in2)):
        return _sg.convolve(in1, in2, mode, method)
    return fftconvolve(in1, in2, mode)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    return np.trapz(y, x=x, dx=dx, axis=axis)


def cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    if not (is_obj(y) or is_obj(x)):
        return _sint.cumulative_trapezoid(y, x, dx, axis, initial)
    Y = objarr(y)
    d = objarr(x)[1:] - objarr(x)[:-1] if x is not None else dx
    r = np.cumsum(d * (Y[1:] + Y[:-1]) / 2.0)
    return r if initial is None else np.concatenate([[as_sym(initial)], r])


PROXY = {}


def build_proxies():
    PROXY["numpy"] = ModProxy(np, NPO)
    PROXY["scipy.interpolate"] = ModProxy(_si, dict(interp1d=interp1d))
    PROXY["scipy.stats"] = ModProxy(_ss, dict(binned_statistic=binned_statistic))
    PROXY["scipy.signal"] = ModProxy(_sg, dict(convolve2d=convolve2d, fftconvolve=fftconvolve, convolve=sconvolve))
    PROXY["scipy.integrate"] = ModProxy(_sint, dict(
        cumulative_trapezoid=cumulative_trapezoid, trapezoid=trapezoid, trapz=trapezoid, simpson=_nosimp))
    PROXY["scipy"] = ModProxy(_scipy, dict(
        interpolate=PROXY["scipy.interpolate"], stats=PROXY["scipy.stats"],
        signal=PROXY["scipy.signal"], integrate=PROXY["scipy.integrate"]))
    PROXY["math"] = ModProxy(math, {k: _m1(k) for k in (
        "sqrt", "exp", "log", "log10", "floor", "ceil", "isnan", "isfinite", "isinf", "fabs", "pow", "sin", "cos", "tan", "hypot", "trunc", "atan", "tanh", "isclose", "log2", "log1p",
        "expm1", "fsum", "copysign", "degrees", "radians", "fmod")})
    NPO["float64"] = PROXY["numpy"].__dict__["float64"] = SymF64


def _nosimp(*a, **k):
    raise EngineLimit("simpson")


def _m1(name):
    real = getattr(math, name)

    def f(*a, **k):
        if name == "fsum":
            v = list(a[0])
            return sum(v, as_sym(0.0)) if has_sym(v) else real(v)
        v = [x.to(u.dimensionless_unscaled).value for x in a] if all(isinstance(x, Quantity) and x.size == 1 for x in a) else list(a)
        v = [x.item() if isinstance(x, np.ndarray) and x.size == 1 else x for x in v]
        if any(isinstance(x, Sym) for x in v):
            s = as_sym(v[0])
            if name == "pow":
                return s ** v[1]
            if name == "log" and len(v) == 2:
                return s.log() / as_sym(v[1]).log()
            if name == "isclose":
                rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                d = abs(s - v[1])
                return bool(d <= at) or bool(d <= rt * abs(s)) or bool(d <= rt * abs(as_sym(v[1])))
            if name == "hypot":
                return s.hypot(v[1])
            if name == "copysign":
                return abs(s) if v[1] >= 0 else -abs(s)
            if name == "fmod":
                return s - as_sym(v[1]) * (s / v[1]).trunc()
            return getattr(s, {"atan": "arctan"}.get(name, name))()
        return real(*a, **k)
    return f


# ------------------------------------------------------------- builtins float / int
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


LITERALS = {}  # text standing for a symbolic number -> its value


class SymFloat(float, metaclass=_FloatMeta):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if hasattr(x, "_symvalue"):
            return x._symvalue("float")
        v = x
        if isinstance(v, str):
            return LITERALS.get(v.strip(), None) if v.strip() in LITERALS else float(v)
        if isinstance(v, Quantity):
            v = v.to(u.dimensionless_unscaled).value
        if isinstance(v, np.ndarray) and v.size == 1:
            v = v.item()
        if isinstance(v, Sym):
            return v
        return float(x)


class SymF64(SymFloat):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, Quantity) or is_obj(x) or has_sym(x) or isinstance(x, (str, np.ndarray)) or hasattr(x, "_symvalue"):
            r = SymFloat(x)
            return np.float64(r) if isinstance(r, float) and not isinstance(r, Sym) else r
        return np.float64(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class SymInt(int, metaclass=_IntMeta):
    dtype = np.dtype(int)

    def __new__(cls, x=0, *a):
        if hasattr(x, "_symvalue"):
            return x._symvalue("int")
        return int(x, *a)


# -------------------------------------------------------------------------- install
STUBS = {}  # module name -> replacement module, set by harnesses before importing


def _imp(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and globals is not None:
        mod = globals.get("__name__") or ""
        if mod == PKG or mod.startswith(PKG + "."):
            if name in STUBS:
                return STUBS[name]
            root = name.split(".")[0]
            if root in ("numpy", "scipy", "math"):
                _real_import(name, globals, locals, fromlist, level)
                if fromlist:
                    return PROXY.get(name) or sys.modules[name]
                return PROXY[root]
    return _real_import(name, globals, locals, fromlist, level)


def patch_astropy():
    orig_new = Quantity.__new__

    def qnew(cls, value, unit=None, dtype=np.inexact, *a, **k):
        if dtype is np.inexact and not isinstance(value, (str, Quantity)):
            if isinstance(value, Sym):
                dtype = object
            elif isinstance(value, np.ndarray):
                if value.dtype == object:
                    if value.size == 0:
                        value = value.astype(float)
                    else:
                        dtype = object
                        if any(isinstance(v, Quantity) for v in value.reshape(-1)):
                            # numbers stored into a float array: dimensionless values
                            o = np.empty(value.size, dtype=object)
                            for i, v in enumerate(value.reshape(-1)):
                                o[i] = as_sym(np.asarray(v.to(u.dimensionless_unscaled).value, dtype=object).item()) if isinstance(v, Quantity) else v
                            value = o.reshape(value.shape)
            elif isinstance(value, (list, tuple)) and len(value) and (
                    has_sym(value) or any(isinstance(v, Quantity) and v.dtype == object for v in value)):
                if not all(isinstance(v, Quantity) for v in value) and any(isinstance(v, Quantity) for v in value):
                    pass
                dtype = object
        return orig_new(cls, value, unit, dtype, *a, **k)

    Quantity.__new__ = staticmethod(qnew)
    for _nm, _op in (("__imul__", "__mul__"), ("__iadd__", "__add__"), ("__isub__", "__sub__"), ("__itruediv__", "__truediv__")):
        # a float array cannot hold symbolic values: the name is rebound to a new array
        def _im(self, other, _r=getattr(Quantity, _nm), _o=_op, _nm=_nm):
            if self.dtype != object and getattr(other, "dtype", None) == object or isinstance(other, Sym):
                if self.dtype != object:
                    un = self.unit
                    r = getattr(self, _o)(other)
                    return r.to(un) if _nm in ("__iadd__", "__isub__") else r
            return _r(self, other)
        setattr(Quantity, _nm, _im)
    for _nm in ("max", "min"):
        def _m(self, axis=None, out=None, keepdims=False, *a, _r=getattr(Quantity, _nm), _e=np_extreme(_nm), **k):
            if self.dtype == object and self.ndim and out is None and not keepdims and not a and not k:
                return _e(self, axis)
            return _r(self, axis, out, keepdims, *a, **k)
        setattr(Quantity, _nm, _m)

    _tv = Quantity.to_value

    def to_value(self, unit=None, equivalencies=[]):
        if self.dtype == object and self.ndim == 0:
            return self.value if unit is None else self.to(unit, equivalencies=equivalencies).value
        return _tv(self, unit, equivalencies)

    Quantity.to_value = to_value

    oset = Quantity.__setitem__

    def setitem(self, i, value):
        # an array of one value assigned to one element is that value
        if self.dtype == object and isinstance(value, np.ndarray) and value.dtype == object and value.size == 1 and value.ndim \
                and not isinstance(i, str) and not isinstance(self.view(np.ndarray)[i], np.ndarray):
            value = value.reshape(())[()]
        if self.dtype == object and isinstance(value, Quantity) and value.ndim == 0 and value.dtype == object \
                and not isinstance(i, str) and not isinstance(self.view(np.ndarray)[i], np.ndarray):
            self.view(np.ndarray)[i] = value.to_value(self.unit)
            if isinstance(self.view(np.ndarray)[i], np.ndarray):
                self.view(np.ndarray)[i] = self.view(np.ndarray)[i].item()
            return
        oset(self, i, value)
    Quantity.__setitem__ = setitem
    _at = Quantity.astype

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _floaty(dtype):
            return self.copy()
        return _at(self, dtype, *a, **k)

    Quantity.astype = astype

    import astropy.units.quantity_helper.converters as conv
    import astropy.units.quantity as qmod

    orig_arb = conv.can_have_arbitrary_unit

    def arb(value):
        if isinstance(value, Sym) or (isinstance(value, np.ndarray) and value.dtype == object):
            o = objarr(value)
            for v in o.reshape(-1):
                c = v.const
                if c is None or (c != 0.0 and np.isfinite(c)):
                    return False
            return True
        return orig_arb(value)

    conv.can_have_arbitrary_unit = arb
    qmod.can_have_arbitrary_unit = arb

    import astropy.units.core as ucore
    orig_cond = ucore._condition_arg

    def cond(value):
        if isinstance(value, Sym):
            return value
        return orig_cond(value)

    ucore._condition_arg = cond

    # formatting is stubbed (never the subject of a property in symbolic mode)
    of = Quantity.__format__

    def fmt(self, spec):
        if self.dtype == object:
            return "<quantity %s>" % self.unit
        return of(self, spec)

    Quantity.__format__ = fmt
    ostr = Quantity.__str__

    def qs(self):
        return "<quantity %s>" % self.unit if self.dtype == object else ostr(self)

    Quantity.__str__ = qs
    from astropy.table import Table
    Table.__repr__ = lambda self: "<table>"
    Table.__str__ = lambda self: "<table>"
    Table.__format__ = lambda self, spec: "<table>"

    import astropy.utils.metadata as md
    oc = getattr(md, "common_dtype", None)
    import astropy.utils.metadata.utils as mdu

    def common_dtype(arrs):
        if any(getattr(a, "dtype", None) == object for a in arrs):
            return np.dtype(object).str
        return _oc(arrs)

    _oc = mdu.common_dtype
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if isinstance(n, str) and n.startswith("astropy") and getattr(m, "common_dtype", None) is _oc:
            m.common_dtype = common_dtype


def patch_ndarray():
    """methods of object arrays that would compare or convert element by element"""
    import ctypes
    import gc
    d = gc.get_referents(np.ndarray.__dict__)[0]
    for nm, best in (("max", core.s_max), ("min", core.s_min)):
        def ext(self, axis=None, out=None, *a, _r=d[nm], _b=best, **k):
            if self.dtype == object and out is None and not a and not k and type(self) is np.ndarray:
                r = _reduce_max(self, axis, _b)
                return r
            return _r(self, axis, out, *a, **k)
        d[nm] = ext

    def astype(self, dtype, *a, _r=d["astype"], **k):
        if self.dtype == object and _floaty(dtype) and has_sym(self):
            return self.copy()
        return _r(self, dtype, *a, **k)

    d["astype"] = astype
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(np.ndarray))


def stub_network():
    import socket

    class NoSock:
        def __init__(self, *a, **k):
            raise OSError("network disabled for verification")
    socket.socket = NoSock


def import_pkg(path):
    """import every module of the package under test"""
    import importlib
    import pkgutil
    sys.path.insert(0, path)
    with open("/dev/null", "w") as dn:
        old = sys.stdout
        sys.stdout = dn
        try:
            pkg = importlib.import_module(PKG)
            for m in pkgutil.walk_packages(pkg.__path__, PKG + "."):
                importlib.import_module(m.name)
        finally:
            sys.stdout = old
    import logging
    logging.getLogger(PKG).handlers.clear()
    logging.getLogger(PKG).addHandler(logging.NullHandler())
    logging.getLogger(PKG).addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    return pkg


def pkg_modules():
    return [m for n, m in list(sys.modules.items()) if (n == PKG or n.startswith(PKG + ".")) and m is not None]


IN_PLACE = False  # numpy & co. are replaced in this process


def install(path):
    global IN_PLACE
    IN_PLACE = True
    import warnings
    warnings.filterwarnings("ignore")
    stub_network()
    patch_astropy()
    patch_ndarray()
    build_proxies()
    builtins.__import__ = _imp
    pkg = import_pkg(path)
    for m in pkg_modules():
        d = m.__dict__
        d.setdefault("float", SymFloat)
        d.setdefault("int", SymInt)
        d.setdefault("max", py_extreme("max"))
        d.setdefault("min", py_extreme("min"))
    return pkg


def install_concrete(path):
    import warnings
    warnings.filterwarnings("ignore")
    stub_network()
    return import_pkg(path)
