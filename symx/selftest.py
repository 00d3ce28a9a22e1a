"""Comparison of the models in shims.py and core.py with the real libraries.

Every snippet below is run twice: with numpy floats on the real libraries and with symbolic values under the
proxies (following the path of the same numbers), and the two results must agree.

    /opt/venv/bin/python -m symx.selftest [-v] [WORD]
"""
import math
import os
import random
import sys
import traceback

SN = r"""
np.sum(a) | a.sum() | sum(a) | np.nansum(a) | np.mean(a) | a.mean() | np.average(a) | np.average(a, weights=b)
np.prod(a) | a.prod() | np.cumsum(a) | a.cumsum() | np.cumprod(a) | np.diff(a) | np.diff(q) | np.ediff1d(a)
np.max(a) | a.max() | max(a) | np.amax(a) | np.nanmax(a) | np.min(a) | a.min() | min(a) | np.nanmin(a) | np.ptp(a)
np.argmax(a) | a.argmax() | np.argmin(a) | a.argmin() | np.nanargmax(a) | np.nanargmin(a)
np.sort(a) | np.argsort(a) | a.argsort() | sorted(a) | np.sort(a)[::-1] | a[np.argsort(-a)] | np.sort(q) | np.argsort(q)
sorted(range(3), key=lambda i: a[i]) | sorted(zip(a, b)) | np.lexsort((a,)) | sorted(zip(a,b), key=lambda t: t[1])
np.maximum(a, b) | np.minimum(a, b) | np.fmax(a, b) | np.fmin(a, b) | np.clip(a, 2, 3) | a.clip(2, 3) | np.maximum(a, 2.5)
np.maximum.reduce([a, b, b]) | np.add.reduce(a) | np.multiply.reduce(a) | np.add.reduce(m, axis=0) | np.logical_and.reduce([a > 2, a < 3])
np.where(a > 2.5, a, b) | np.where(a > 2.5)[0] | np.where(a > 2.5, a, 0) | np.where(a > 2.5, 0.0, q.value) | np.where(a > 2.5, q, 0 * u.m)
np.nonzero(a > 2.5)[0] | np.flatnonzero(a > 2.5) | np.argwhere(a > 2.5) | np.extract(a > 2.5, a) | np.compress(a > 2.5, a)
np.logical_and(a > 2, a < 3) | np.logical_or(a > 2, a < 3) | np.logical_not(a > 2) | (a > 2) & (a < 3) | ~(a > 2) | np.bitwise_and(a > 2, b > 2)
np.any(a > 2.5) | np.all(a > 0) | any(a > 2.5) | all(a > 2.5) | (a > 2.5).any() | (a > 2.5).sum() | np.count_nonzero(a > 2.5) | np.sum(a > 2.5)
np.sqrt(a) | np.square(a) | np.power(a, 2) | np.power(a, 0.5) | a ** 2 | a ** 0.5 | np.hypot(a, b) | np.exp(-a) | np.log(a) | np.log10(a) | np.log2(a) | np.log1p(a) | np.expm1(a)
np.abs(-a) | np.absolute(-a) | np.fabs(a - b) | abs(a - b) | np.sign(a - b) | np.negative(a) | np.reciprocal(a) | np.sqrt(q) | np.square(q) | np.hypot(q, q)
np.add(a, b) | np.subtract(a, b) | np.multiply(a, b) | np.divide(a, b) | np.true_divide(a, b) | np.floor_divide(a, 2) | np.mod(a, 2) | np.remainder(a, 2) | np.add(q, q) | np.multiply(q, a) | np.divide(q, a) | np.subtract(q, q)
np.greater(a, 2.5) | np.less(a, b) | np.greater_equal(a, 2) | np.less_equal(a, b) | np.equal(a, b) | np.not_equal(a, b) | np.isclose(a, b) | np.allclose(a, a) | np.array_equal(a, a)
np.outer(a, b) | np.dot(a, b) | np.inner(a, b) | a @ b | a.dot(b) | np.matmul(m, a) | np.einsum('i,i->', a, b) | np.einsum('ij,j->i', m, a) | np.tensordot(m, a, 1) | np.vdot(a, b)
np.multiply.outer(a, b) | np.subtract.outer(a, b) | a[:, None] * b[None, :] | a[:, np.newaxis] - b | np.kron(a, b)
np.concatenate([a, b]) | np.append(a, b) | np.append(a, 1.0) | np.hstack([a, b]) | np.vstack([a, b]) | np.stack([a, b]) | np.column_stack([a, b]) | np.r_[a, b] | np.c_[a, b] | np.insert(a, 0, 1.0) | np.concatenate(([0.0], np.cumsum(a)))
np.append(q, q[-1]) | np.concatenate([q, q]) | np.hstack([q, q]) | np.insert(q, 0, q[0]) | u.Quantity([q[0], q[1]]) | u.Quantity(list(q)) | np.stack([q, q]) | np.append(q, 3 * u.m)
np.zeros(3) + a | np.zeros_like(a) + a | np.ones_like(a) * b | np.full(3, s) | np.full_like(a, 2.0) + b | np.full_like(a, s) | np.empty_like(a).size | np.zeros_like(q) + q | np.ones_like(q) | np.full(3, 2.0) * q
np.zeros(a.size) * u.m + q | np.zeros(a.shape) + a | np.ones(len(a)) * s | np.repeat(s, 3) | np.tile(a, 2) | np.repeat(a, 2) | np.repeat(q[0], 3) | np.broadcast_to(a, (2, 3)) | np.broadcast_to(s, 3) | np.resize(a, 4)
np.array([s, s * 2]) | np.array([x * 2 for x in a]) | np.asarray(a) | np.asarray([s, 1.0]) | np.fromiter((x for x in a), dtype=float) | np.array(list(map(lambda x: x * 2, a))) | np.array([s, 1.0], dtype=float) | np.array(a, dtype=np.float64) | np.asarray(list(a), dtype=float)
np.atleast_1d(s) | np.atleast_1d(a) | np.squeeze(a[None, :]) | np.ravel(m) | m.flatten() | m.T | np.transpose(m) | m.reshape(3, 2) | np.reshape(m, -1) | np.flip(a) | a[::-1] | np.flipud(a) | np.roll(a, 1) | np.expand_dims(a, 0) | np.swapaxes(m, 0, 1)
m.sum(axis=0) | m.sum(axis=1) | np.sum(m, axis=-1) | m.max(axis=0) | np.max(m, axis=1) | m.mean(axis=0) | np.amax(m, axis=0) | m.min(axis=1) | np.cumsum(m, axis=0) | np.sum(m) | m.max() | np.argmax(m) | np.argmax(m, axis=0) | np.sum(m, axis=(0, 1)) | np.sum(m, axis=0, keepdims=True)
np.unravel_index(np.argmax(m), m.shape) | np.unravel_index(m.argmax(), m.shape)
np.interp(2.2, x, a) | np.interp(x, x, a) | np.interp(xn, x, a, left=0, right=0) | np.interp(s, x, [1.0, 2.0, 5.0]) | np.interp(xn * u.um, x * u.um, a * u.m) | np.interp(xn, x, b, left=0.0)
interp1d(x, a)(2.2) | interp1d(x, a, bounds_error=False, fill_value=0.0)(xn) | interp1d(x, a, fill_value='extrapolate')(xn) | interp1d(x[::-1], a, assume_sorted=False, bounds_error=False, fill_value=0)(xn) | interp1d(x, a, bounds_error=False, fill_value=(1., 2.))(xn) | interp1d(x, m, axis=1)(2.2) | interp1d(x, a, kind='nearest')(2.2) | interp1d(x * u.um, a)(2.2)
np.searchsorted(x, xn) | np.searchsorted(x, s) | np.searchsorted(a_sorted, 2.5) | np.digitize(xn, x) | np.digitize(a, x) | np.searchsorted(x, a, side='right') | x.searchsorted(a) | np.histogram(xn, x, weights=[s, s, s, s])[0] | np.histogram(a, [0., 2., 3., 9.])[0] | np.bincount([0, 1, 1], weights=a) | np.bincount([0, 1, 1], weights=a, minlength=4)
np.add.reduceat(a, [0, 1]) | np.diff(np.append(0, np.cumsum(a)))
np.trapezoid(a, x) if hasattr(np, 'trapezoid') else np.trapz(a, x) | np.trapz(a, x) if hasattr(np, 'trapz') else s | cumulative_trapezoid(a, x) | trapezoid(a, x) | simpson(a, x=x) | np.sum(0.5 * (a[1:] + a[:-1]) * np.diff(x))
binned_statistic(x, a, bins=[0., 1.5, 2.5, 9.])[0] | binned_statistic(x, a, statistic='sum', bins=[0., 1.5, 9.]).statistic
np.convolve(a, b) | np.convolve(a, b, 'same') | convolve2d(m, m, 'same') | convolve(a, b, 'same') | fftconvolve(a, b, 'same') | np.gradient(a) | np.gradient(a, x)
np.floor(a) | np.ceil(a) | np.rint(a) | np.round(a, 1) | np.around(a, 1) | np.trunc(a) | np.fix(a) | round(s, 2) | math.floor(s) | math.ceil(s) | int(s) | int(np.ceil(s)) | np.ceil(a).astype(int) | np.floor(s) | s // 1 | np.rint(s)
math.sqrt(s) | math.exp(-s) | math.log(s) | math.log10(s) | math.pow(s, 2) | math.isclose(s, s) | math.isfinite(s) | math.isnan(s) | math.hypot(s, s) | math.fsum(a) | math.sin(s) | math.cos(s) | math.atan(s) | math.prod(a) | math.fabs(-s) | math.copysign(s, -1)
np.sin(a) | np.cos(a) | np.tan(s) | np.arctan(a) | np.arcsin(1 / (a + 1)) | np.sin(a * u.rad) | np.arctan(s).item() if hasattr(np.arctan(s), 'item') else np.arctan(s) | np.cos(30 * u.deg) * s | np.deg2rad(a) | np.radians(a) | np.arctan2(a, b) | np.sinh(s) | np.tanh(s)
np.isnan(a) | np.isfinite(a) | np.isinf(a) | np.isnan(a).any() | np.nan_to_num(a) | np.isnan(q) | np.isfinite(q) | np.isnan(s)
functools.reduce(lambda p, q: p * q, a) | functools.reduce(operator.add, a) | functools.reduce(operator.mul, list(a), 1.0) | functools.reduce(np.multiply, [a, b]) | operator.truediv(a, b) | list(itertools.accumulate(a)) | sum(p * q for p, q in zip(a, b)) | sum((x for x in a), start=0.0) | functools.reduce(lambda t, v: t + v ** 2, a, 0.0)
statistics.mean(a) | statistics.fmean(a) | np.median(a) | np.std(a) | np.var(a) | np.percentile(a, 50) | np.quantile(a, 0.5)
q.to('cm').value | q.to_value('cm') | q.to(u.km) | (q * q).to(u.cm ** 2) | (q / (2 * u.s)).to('km/h') | q.si | q.cgs | q.decompose() | q.sum() | q.max() | q.mean() | np.max(q) | np.sum(q) | q.min() | np.mean(q) | q.copy() | q.value.sum() | q[0] | q[-1] * 2 | q[1:3] | q[a > 2.5] | q > 2.5 * u.m | q.unit.to(u.cm) * q.value | (q ** 2) ** 0.5 | np.sqrt(q * q) | q.flatten() | q.tolist() | q.cumsum() | np.cumsum(q) | q.ptp() if hasattr(q, 'ptp') else q.max() - q.min()
u.Quantity(a, 'm') | u.Quantity(q, 'cm') | u.Quantity(a) * u.m | a * u.m | a << u.m | u.m * a | s * u.m | u.Quantity(s, u.m) | u.Quantity([s, s], u.m) | (s * u.m).to('cm').value | float((s * u.m).to('cm').value) | float((s * u.m) / (2 * u.cm)) | (s * u.m).value * 2 | np.sqrt(s * u.m ** 2) | np.exp(-(s * u.m) / (2 * u.cm)) | q.to('')  if q.unit == u.dimensionless_unscaled else q | q / q[0] | (q / q[0]).value | q.unit | min(q) | max(q) | sum(q) | np.array(q) | np.asarray(q) | q.astype(float) | np.maximum(q, 2.5 * u.m) | np.clip(q, 2 * u.m, 3 * u.m) | np.where(q > 2.5 * u.m)[0] | np.isclose(q, q) | np.abs(q - q[1]).argmin() | np.argmin(np.abs(q - 2.2 * u.m)) | np.nanmax(q) | np.interp(2.2, x, q.value) * q.unit | np.prod(q / u.m) | np.dot(q, a) | q @ a | np.trapz(q, x * u.s) if hasattr(np, 'trapz') else s | np.outer(q, a) | np.sum(m * u.m, axis=0) | (m * u.m).max(axis=0) | np.diff(q).to('cm') | np.arange(3) * q | np.linspace(0, 1, 3) * q | np.linspace(q[0], q[1], 3) | np.full(3, q[0].value) * q.unit | np.full(3, q[0]) | np.arange(q.size) | np.mean(q[:2]) | np.median(q) | q.mean(axis=0) | np.add.reduce(q)
a.astype(float) | a.astype('float64') | m.max() | max(a[0], a[1], a[2]) | max([v for v in a]) | min(v for v in q) | np.maximum(q, q[::-1]) | np.fmax.reduce(a)
T['A'] | T['A'].data | T['A'].value | T['A'] * 2 | T['A'].sum() | T['A'].max() | np.max(T['A']) | T['A'].unit | T['A'].quantity | T[0]['A'] | [r['A'] for r in T] | T['A'][1] | T[T['B'] > 2.5]['A'] | T['A'].to('cm') | T.keys() | len(T) | T[1:]['A'] | np.array(T['A']) | u.Quantity(T['A']) | np.sqrt(T['A'] ** 2 + T['A'] ** 2) | T.copy()['A'] | np.sum([T[k] for k in ('A', 'A')], axis=0) | sum(T[k] for k in ('A', 'A')) | hstack([T, Table({'C': a})])['C'] | vstack([T, T])['A'] | sum((T[k].quantity if hasattr(T[k], 'quantity') else T[k]) for k in ('A', 'A')) | T.as_array()['B'] | T.to_pandas()['B'].values
QT['A'] | QT['A'].to('cm') | QT['A'].value | QT['A'][1] | np.sum(QT['A']) | QT['A'].sum() | [r['A'] for r in QT] | vstack([QT, QT])['A'] | hstack([QT, QTable({'C': q})])['C'] | QT[QT['A'] > 2.5 * u.m]['B'] | np.max([QT['A'].value, a], axis=0) | u.Quantity([QT['A'], QT['A']]).max(axis=0) | max(QT['A']) | np.min(u.Quantity([QT['A'][0], QT['A'][1]]))
float(s) | str(type(float(s)).__name__) != '' | bool(s > 2) | s if s > 2 else 0 | min(s, 2.0) | max(s, 2.0) | min(max(s, 2.0), 3.0) | divmod(s, 1.0)[0] | s % 1 | pow(s, 2) | abs(-s) | -s | +s | 1 / s | s ** -1 | 2 ** s | 10 ** s | s ** s | complex(1, 0).real * s | isinstance(s, float) | isinstance(s, (int, float)) | np.isscalar(s) | np.ndim(s) | np.size(a) | np.shape(a) | hasattr(s, 'unit') | np.float64(s) | np.float64(s) * 2 | np.issubdtype(np.asarray(a).dtype, np.floating) | 0 < s < 10 | s == s | not s | s is None | isinstance(s, numbers.Number) | isinstance(s, numbers.Real) | np.random.default_rng is None
np.vectorize(lambda v: v * 2)(a) | np.apply_along_axis(lambda v: v.sum(), 0, m) | list(map(operator.mul, a, b)) | np.piecewise(a, [a < 2, a >= 2], [0, 1]) | np.select([a < 2, a >= 2], [a, b]) | np.choose([0, 1, 0], [a, b]) | np.take(a, [0, 2]) | a.take([0, 2]) | np.put is None | np.delete(a, 1) | np.unique(a) | np.in1d is None if hasattr(np, 'in1d') else True | np.isin([1, 2], [2]) | np.split(a, [1])[1] | np.array_split(a, 2)[0] | np.meshgrid(a, b)[0] | np.triu(m) | np.diag(a) | np.eye(3) @ a | np.identity(3) * a | np.polyfit is None | np.polyval([1, 2], a) | np.cross(a, b) | np.linalg.norm(a) | np.ix_([0], [1])[0]
scipy.interpolate.interp1d(x, a)(2.2) | scipy.integrate.trapezoid(a, x) | scipy.signal.convolve2d(m, m) | scipy.stats.binned_statistic(x, a, bins=[0., 2.5, 9.])[0]
""".strip()

BLOCKS = [r"""
r = np.ones(3)
f, w = np.modf(a[:1])
r = r * u.dimensionless_unscaled
r[0] = r[-1] = 0.5 * u.Quantity(f)
""", r"""
r = np.zeros(2) * u.cm
r[0] = q[0]
r[1] = (q[:1] * 1)
""", r"""
r = np.zeros(3)
for i in range(3):
    r[i] = a[i] * 2
""", r"""
r = np.zeros(3) * u.m
for i in range(3):
    r[i] = q[i] * 2
""", r"""
r = np.zeros(3) * u.m
for i in range(3):
    r[i] += q[i]
""", r"""
r = np.empty(3)
r[:] = a
r[a > 2.5] = 0.0
""", r"""
r = a.copy()
r[np.where(a > 2.5)] = 0.0
""", r"""
r = q.copy()
r[q > 2.5 * u.m] = 0
""", r"""
r = q.copy()
r[a > 2.5] *= 2
""", r"""
r = np.zeros(3)
np.add.at(r, [0, 1, 1], a)
""", r"""
r = np.zeros(3)
r += a
r *= b
r /= 2
r -= a
""", r"""
r = np.zeros(3) * u.m
r += q
r *= 2
""", r"""
r = 0.0 * u.m
for v in q:
    r = r + v
""", r"""
r = 0
for v in q:
    r += v
""" if False else "r = 1", r"""
r = np.multiply(a, b, out=np.zeros(3))
""", r"""
r = np.divide(a, b, out=np.zeros(3), where=b > 0)
""", r"""
r = np.sqrt(a, out=np.empty(3))
""", r"""
r = []
for i, (p, t) in enumerate(zip(a, b)):
    r.append(p * t + i)
r = np.array(r)
""", r"""
r = []
for v in q:
    r.append(v * 2)
r = u.Quantity(r)
""", r"""
r = []
for v in q:
    r.append(v.value)
r = np.array(r) * q.unit
""", r"""
r = np.array([v.to('cm').value for v in q]) * u.cm
""", r"""
i = 0
r = 0.0
while i < len(a) and r < 100:
    r = max(r, a[i])
    i += 1
""", r"""
T2 = QTable()
T2['x'] = q
T2['y'] = a
T2['z'] = np.zeros(3) * u.m
T2['z'][1] = q[1]
T2['w'] = T2['x'] * T2['y']
r = [T2['w'], T2['z']]
""", r"""
T2 = Table()
T2['x'] = q
T2['x'] = T2['x'] * 2
T2['k'] = [v for v in q]
r = T2['x']
""", r"""
T2 = QTable()
T2['x'] = [q[0], q[1], q[2]]
r = T2['x']
""", r"""
T2 = QTable()
T2.add_column(q, name='x')
T2.rename_column('x', 'y')
r = T2['y']
""", r"""
T2 = QTable([q, a], names=['x', 'y'])
T2.sort('y')
r = T2['x']
""", r"""
T2 = QTable({'x': q, 'y': a})
r = T2[np.argsort(T2['y'])]['x']
""", r"""
T2 = QTable()
T2['x'] = np.zeros(3) * u.m
for k in range(3):
    T2['x'][k] = q[k]
r = T2['x']
""", r"""
T2 = QTable()
T2['x'] = np.empty(3) * u.m
T2['x'][:] = q
r = T2['x']
""", r"""
T2 = QTable()
T2['x'] = np.zeros(3) * u.m
T2['x'] += q
r = T2['x']
""", r"""
r = copy.deepcopy(q)
r2 = copy.copy(a)
r = r * r2
""", r"""
d = {'k%d' % i: v for i, v in enumerate(a)}
r = [d[k] for k in sorted(d)]
""", r"""
r, t = a.max(), a.argmax()
r = [r, t]
""", r"""
def helper(v, w=None):
    w = np.ones_like(v) if w is None else w
    return (v * w).sum() / w.sum()
r = helper(a) + helper(a, b)
""", r"""
r = np.nan_to_num(np.where(a > 2.5, a, np.nan))
""", r"""
t = np.full(3, np.nan)
t[0] = s
t[np.isnan(t)] = 0.0
r = t
""", r"""
mask = np.zeros(3, dtype=bool)
mask[1] = True
r = [a[mask], a[~mask]]
""", r"""
mask = np.ones(3, dtype=bool)
mask &= a > 2.0
r = a * mask
""", r"""
lo, hi = x[:-1], x[1:]
r = np.array([a[(x >= l) & (x < h)].sum() for l, h in zip(lo, hi)])
""", r"""
c = np.concatenate(([0.0], np.cumsum(a)))
r = c[[1, 3]] - c[[0, 1]]
""", r"""
acc = np.zeros((2, 3))
acc[0] = a
acc[1, :] = b
r = acc.max(axis=0)
""", r"""
acc = np.zeros((2, 3))
acc[0, 1] = s
acc[:, 2] = s
r = acc
""", r"""
r = s
r **= 2
r //= 1
""", r"""
try:
    r = 1 / (s - s + 1)
except ZeroDivisionError:
    r = 0
""", r"""
r = '%d' % int(s)
""", r"""
r = len('{:.3f}'.format(2.0))
_ = '{} {:.3f} {:e} %s'.format(q, s, s) + f'{s:.2f} {a} {q}' + '%s %.2f' % (s, s) + str(s) + repr(q)
""", r"""
import numpy
r = numpy.sum(a)
""", r"""
from numpy import sqrt, maximum
r = sqrt(maximum(a, b))
""", r"""
from scipy import interpolate
r = interpolate.interp1d(x, a)(2.2)
""", r"""
from itertools import chain
r = np.array(list(chain(a, b)))
""", r"""
b1, b2 = np.broadcast_arrays(a, s)
r = b1 * b2
""", r"""
it = np.nditer(a, flags=['refs_ok']) if False else iter(a)
r = [next(it), next(it)]
""", r"""
r = [v for _, v in np.ndenumerate(m)]
""", r"""
r = [m[i, j] for i, j in np.ndindex(m.shape)]
""", r"""
best = None
for k, v in enumerate(a):
    if best is None or v > a[best]:
        best = k
r = best
""", r"""
r = max(range(3), key=lambda k: a[k])
""", r"""
r = max(range(3), key=a.__getitem__)
""", r"""
class P:
    pass
p = P(); p.v = q
setattr(p, 'w', getattr(p, 'v') * 2)
r = p.w
""", r"""
r = QT['A'].to(u.m).value
r = np.trapezoid(r, x) if hasattr(np, 'trapezoid') else r.sum()
""", r"""
with np.errstate(divide='ignore', invalid='ignore'):
    r = a / b
""", r"""
r = np.where(np.isfinite(a / b), a / b, 0.0)
""", r"""
idx = np.where((x > 1.5) & (x < 2.5))[0]
r = a[idx] * u.m
""", r"""
idx = np.flatnonzero(np.logical_and(x >= s * 0, x <= 2.5))
r = [a[idx], np.max(a[idx])]
""", r"""
from astropy.modeling.physical_models import BlackBody
r = BlackBody(temperature=(300 * s) * u.K, scale=1.0 * u.W / u.m**2 / u.um / u.sr)(np.array([5., 10.]) * u.um) if False else 1
""", r"""
t = (a * u.um).to(u.m, equivalencies=u.spectral()) if False else (a * u.um).to(u.m)
r = t
""", r"""
r = u.Quantity(np.array([v.value for v in q]), unit=q.unit)
""", r"""
r = u.Quantity([v for v in q]).to('cm')
""", r"""
r = sum([v for v in q[1:]], q[0])
""", r"""
r = sum(q, 0 * u.m)
""", r"""
r = np.sum([v.value for v in q]) * q.unit
""", r"""
r = functools.reduce(lambda p, t: p + t, [q, q])
""", r"""
r = np.prod([a, b], axis=0)
""", r"""
r = np.prod(np.array([a, b, b]), axis=0)
""", r"""
r = np.sum(np.square([a, b]), axis=0)
""", r"""
r = np.linalg.norm([a, b], axis=0)
""", r"""
r = math.fsum(v * v for v in a) ** 0.5
""",
]


def snippets():
    for ln in SN.splitlines():
        for e in ln.split(" | "):
            if e.strip():
                yield e.strip(), "r = " + e.strip()
    for b in BLOCKS:
        yield b.strip(), b


VALS = dict(a0=2.3, a1=3.7, a2=1.4, b0=4.2, b1=1.1, b2=2.9, s=2.6)


def flat(v):
    import numpy as np
    import astropy.units as u
    from .core import Sym
    if isinstance(v, u.Quantity):
        return flat(v.value) + [str(v.unit)]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flat(x)]
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return [y for x in v for y in flat(list(x))]
        un = getattr(v, "unit", None)
        return [y for x in np.asarray(v).ravel().tolist() for y in flat(x)] + ([str(un)] if un is not None else [])
    if isinstance(v, Sym):
        return [v]
    if hasattr(v, "_symvalue"):
        return [v._symvalue("float")]
    if isinstance(v, (bool, np.bool_)):
        return [float(v)]
    if type(v).__name__ == "SymBool":
        return [float(bool(v))]
    if isinstance(v, (int, float, np.number)):
        return [float(v)]
    if hasattr(v, "__iter__") and not isinstance(v, str):
        return flat(list(v))
    return [str(v)]


PRE = """
import math, functools, operator, itertools, statistics, numbers, copy
import numpy as np
import scipy, scipy.interpolate, scipy.integrate, scipy.signal, scipy.stats
import astropy.units as u
from astropy.table import Table, QTable, hstack, vstack
from scipy.interpolate import interp1d
from scipy.integrate import cumulative_trapezoid, trapezoid, simpson
from scipy.stats import binned_statistic
from scipy.signal import convolve2d, convolve, fftconvolve
"""
SETUP = """
a = np.array([a0, a1, a2]); b = np.array([b0, b1, b2])
q = a * u.m
m = np.array([[a0, b1, a2], [b0, a1, b2]])
x = np.array([1.0, 2.0, 3.0]); xn = np.array([0.5, 1.2, 2.0, 3.5])
a_sorted = np.sort(a)
T = Table(); T['A'] = q; T['B'] = b
QT = QTable(); QT['A'] = q; QT['B'] = b
"""


def run(code, ns):
    try:
        exec(PRE, ns)
        exec(SETUP, ns)
        exec(code, ns)
        return ns["r"]
    except Exception as ex:
        return ex


def main():
    args = [x for x in sys.argv[1:] if not x.startswith("-")]
    verbose = "-v" in sys.argv
    from . import core, shims, ctx as cx
    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    import warnings
    warnings.filterwarnings("ignore")
    real = {}
    for name, code in snippets():
        if args and args[0] not in name:
            continue
        r = run(code, dict(VALS, __name__="plain"))
        real[name] = r if isinstance(r, Exception) else flat(r)
    shims.install(os.environ.get("SYMX_REPO", "/repo"))
    bad = n = 0
    for name, code in snippets():
        if args and args[0] not in name:
            continue
        core.reset_atoms()
        g = cx.Guided(dict(VALS), random.Random(1))
        core.set_engine(g)
        c = cx.SymCtx(g, "quick")
        core.pending.clear()
        n += 1
        try:
            ns = {k: c.real(k, 0.5, 6.0) for k in VALS}
            ns.update(__name__="exorad.selftest", float=shims.SymFloat, int=shims.SymInt, max=shims.py_extreme("max"), min=shims.py_extreme("min"))
            r = run(code, ns)
            if isinstance(r, Exception):
                res, f = "raises %s: %s" % (type(r).__name__, str(r)[:150]), None
                if verbose:
                    res += "".join(traceback.format_exception(r)[-3:])
            else:
                cache = {}
                f = [core.eval_sym(v, VALS, cache) if isinstance(v, core.Sym) else v for v in flat(r)]
                res = ""
            if core.pending:
                res, f = "pending %s" % core.pending[0], None
        except BaseException as ex:
            res, f = "escapes %s: %s" % (type(ex).__name__, str(ex)[:150]), None
        finally:
            core.set_engine(core._NoEngine())
        w = real[name]
        if isinstance(w, Exception):
            if f is not None:
                print("REAL RAISES   %-60s %s" % (name, w))
            continue
        if f is None:
            bad += 1
            print("UNSUPPORTED   %-60s %s" % (name, res))
        elif len(f) != len(w) or any((isinstance(p, str) != isinstance(t, str)) or (
                p != t if isinstance(p, str) else not math.isclose(p, t, rel_tol=1e-9, abs_tol=1e-12) and not (p != p and t != t)) for p, t in zip(f, w)):
            bad += 1
            print("DIFFERENT     %-60s %s != %s" % (name, f, w))
    print("%d snippets, %d differ or are unsupported" % (n, bad))


main()
