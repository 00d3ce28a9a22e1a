"""Symbolic numbers, path exploration and solver queries.

A :class:`Sym` is a real number represented as a Laurent polynomial with float
coefficients over *atoms* (input variables, square roots, inverses of sums,
uninterpreted transcendental functions, integer floors).  The program under test runs
for real on these objects, inside object-dtype numpy arrays.  A comparison that the
path condition does not settle forks the execution (the harness is re-executed from
the start along the other branch).  Z3 settles feasibility of each branch and the
truth of each assertion over *all* values allowed by the path condition.
"""
import math
import numbers
import os
import sys
import time
from fractions import Fraction

import numpy as np

SLOW = float(os.environ.get("SYMX_SLOW", 0))


def _load_z3():
    try:
        import z3
        return z3
    except ImportError:
        pass
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    import importlib.util
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(p, "z3", "__init__.py"),
        submodule_search_locations=[os.path.join(p, "z3")])
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)
    return m


z3 = _load_z3()

INF = float("inf")


pending = []  # engine exceptions raised on this path: code under test must not swallow them


class EngineLimit(Exception):
    """The engine cannot represent this operation (never a verdict)."""

    def __init__(self, *a):
        super().__init__(*a)
        pending.append(self)


class PathAbort(BaseException):
    """Current path is infeasible or abandoned (steering exception)."""

    def __init__(self, *a):
        super().__init__(*a)
        pending.append(self)


class Inconclusive(BaseException):
    """Solver answered unknown, or a bound was exceeded."""

    def __init__(self, *a):
        super().__init__(*a)
        pending.append(self)


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "isint", "z3v", "fn")

    def __init__(self, kind, name, args=(), lo=-INF, hi=INF, isint=False):
        self.kind, self.name, self.args = kind, name, args
        self.lo, self.hi, self.isint = lo, hi, isint
        self.id = None
        self.z3v = None

    def __repr__(self):
        return self.name


class AtomTable:
    def __init__(self):
        self.atoms = []
        self.by_name = {}
        self.by_shape = {}

    def add(self, a):
        a.id = len(self.atoms)
        self.atoms.append(a)
        return a

    def var(self, name, lo, hi, isint=False):
        a = self.by_name.get(name)
        if a is None:
            a = Atom("var", name, (), lo, hi, isint)
            self.add(a)
            self.by_name[name] = a
        elif (a.lo, a.hi, a.isint) != (lo, hi, isint):
            raise EngineLimit("variable %s redeclared with other bounds" % name)
        return a

    def func(self, kind, polys, lo=-INF, hi=INF, isint=False, extra=()):
        """Atom for kind(polys), shared between arguments equal up to rounding."""
        shape = (kind, extra, tuple(tuple(sorted(p)) for p in polys))
        lst = self.by_shape.setdefault(shape, [])
        for a in lst:
            if all(poly_close(p, q) for p, q in zip(a.args, polys)):
                return a
        a = Atom(kind, "%s#%d" % (kind, len(self.atoms)), tuple(polys), lo, hi, isint)
        a.fn = extra
        self.add(a)
        lst.append(a)
        return a


def poly_close(p, q, tol=2e-12):
    for m, c in p.items():
        d = q[m]
        if abs(c - d) > tol * max(abs(c), abs(d)):
            return False
    return True


T = AtomTable()


def reset_atoms():
    global T
    T = AtomTable()


# ---------------------------------------------------------------- polynomial algebra
# monomial: tuple of (atom_id, exponent) sorted by atom id; exponent is a nonzero int
ONE = ()
SNAP = 1e-14


def p_const(c):
    return {ONE: float(c)} if c != 0 else {}


def p_add(p, q, s=1.0):
    if len(p) < len(q) and s == 1.0:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        c = c * s
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            n = o + c
            if abs(n) <= SNAP * max(abs(o), abs(c)):
                del r[m]
            else:
                r[m] = n
    return r


def p_scale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


MAXTERMS = 4000


def p_mul(p, q):
    if len(p) == 1 and ONE in p:
        return p_scale(q, p[ONE])
    if len(q) == 1 and ONE in q:
        return p_scale(p, q[ONE])
    r = {}
    mag = {}
    red = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            o = r.get(m)
            if o is None:
                r[m] = c
                mag[m] = abs(c)
            else:
                r[m] = o + c
                mag[m] = max(mag[m], abs(c))
    r = {m: c for m, c in r.items() if abs(c) > SNAP * mag[m]}
    if len(r) > MAXTERMS:
        raise EngineLimit("polynomial too large (%d terms)" % len(r))
    return p_reduce(r)


def p_reduce(p):
    """Rewrite s*s -> P for square-root atoms and v*v^-1 style leftovers."""
    todo = None
    for m in p:
        for i, e in m:
            if T.atoms[i].kind == "sqrt" and (e >= 2 or e <= -1):
                todo = (m, i, e)
                break
        if todo:
            break
    if not todo:
        return p
    m, i, e = todo
    c = p[m]
    rest = {k: v for k, v in p.items() if k != m}
    base = tuple(x for x in m if x[0] != i)
    a = T.atoms[i]
    if e >= 2:
        k, rem = divmod(e, 2)
        t = {m_mul(base, ((i, 1),)) if rem else base: c}
        for _ in range(k):
            t = p_mul(t, a.args[0])
    else:
        # s^-e = s^(e mod 2) / P^ceil(e/2)
        k = (-e + 1) // 2
        rem = 2 * k + e
        t = {m_mul(base, ((i, 1),)) if rem else base: c}
        ip = p_inv(a.args[0])
        for _ in range(k):
            t = p_mul(t, ip)
    return p_reduce(p_add(rest, t))


def p_content(p):
    """Common monomial factor (min exponents over the terms, for atoms in all of them)."""
    it = iter(p)
    c = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(c):
            if i not in d:
                if c[i] > 0:
                    c[i] = 0
                else:
                    c[i] = min(c[i], 0)
            else:
                c[i] = min(c[i], d[i])
        for i, e in d.items():
            if i not in c and e < 0:
                c[i] = e
    return tuple(sorted((i, e) for i, e in c.items() if e))


def m_inv(m):
    return tuple((i, -e) for i, e in m)


def p_mulmono(p, m):
    return {m_mul(k, m): c for k, c in p.items()}


def p_split(p):
    """p = coef * content * core, core with leading coefficient 1."""
    cont = p_content(p)
    core = p_mulmono(p, m_inv(cont)) if cont else p
    lead = min(core)
    k = core[lead]
    return k, cont, {m: c / k for m, c in core.items()}


def p_inv(p):
    """1/p for a polynomial known to be nonzero."""
    if len(p) == 1:
        (m, c), = p.items()
        r = {m_inv(m): 1.0 / c}
        # inverse atoms: (1/core)^-1 -> core
        return p_expand_inv(r)
    k, cont, core = p_split(p)
    lo, hi = p_interval(core)
    if lo > 0:
        b = (1.0 / hi * 0.9999999 if hi < INF else 0.0, 1.0 / lo * 1.0000001)
    elif hi < 0:
        b = (1.0 / hi * 1.0000001, 1.0 / lo * 0.9999999 if lo > -INF else 0.0)
    else:
        b = (-INF, INF)
    a = T.func("inv", [core], *b)
    return p_expand_inv({m_mul(((a.id, 1),), m_inv(cont)): 1.0 / k})


def p_expand_inv(p):
    for m, c in p.items():
        for i, e in m:
            if T.atoms[i].kind == "inv" and e < 0:
                base = tuple(x for x in m if x[0] != i)
                rest = {k: v for k, v in p.items() if k != m}
                t = {base: c}
                for _ in range(-e):
                    t = p_mul(t, T.atoms[i].args[0])
                return p_expand_inv(p_add(rest, t))
    return p_reduce(p)


def _pw(lo, hi, e):
    """interval power for integer exponent"""
    if e == 1:
        return lo, hi
    if e < 0:
        l, h = _pw(lo, hi, -e)
        if l > 0:
            return (1.0 / h if h < INF else 0.0), 1.0 / l
        if h < 0:
            return 1.0 / h, (1.0 / l if l > -INF else 0.0)
        if l == 0 and e % 2 == 0:
            return (1.0 / h if h < INF and h > 0 else 0.0), INF
        if l == 0:
            return (1.0 / h if 0 < h < INF else 0.0), INF
        return -INF, INF
    try:
        a, b = lo ** e, hi ** e
    except OverflowError:
        return (-INF, INF)
    if e % 2:
        return a, b
    if lo >= 0:
        return a, b
    if hi <= 0:
        return b, a
    return 0.0, max(a, b)


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def m_interval(m, pb=None):
    lo = hi = 1.0
    for i, e in m:
        a = T.atoms[i]
        l, h = a.lo, a.hi
        if pb is not None and i in pb:
            l, h = pb[i]
        l, h = _pw(l, h, e)
        c = (_m(lo, l), _m(lo, h), _m(hi, l), _m(hi, h))
        lo, hi = min(c), max(c)
    return lo, hi


def p_interval(p, pb=None):
    """pb: path-specific bounds of single atoms (never used when creating atoms)"""
    lo = hi = 0.0
    for m, c in p.items():
        l, h = m_interval(m, pb)
        a, b = _m(l, c), _m(h, c)
        if a > b:
            a, b = b, a
        lo += a
        hi += b
    if lo != lo or hi != hi:
        return -INF, INF
    return lo, hi


def p_mag(p):
    """upper bound of sum |c*m|"""
    s = 0.0
    for m, c in p.items():
        l, h = m_interval(m)
        s += abs(c) * max(abs(l), abs(h)) if max(abs(l), abs(h)) != 0 else 0.0
    return s


# ----------------------------------------------------------------------------- Sym
def as_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Sym(p_const(1.0 if x else 0.0))
    if isinstance(x, numbers.Real) or isinstance(x, (np.floating, np.integer)):
        f = float(x)
        if f != f or f in (INF, -INF):
            return Sym(None, f)
        return Sym(p_const(f))
    if isinstance(x, np.ndarray) and x.ndim == 0 and type(x) is np.ndarray:
        return as_sym(x.item())
    return None


def const_op(f, a, b):
    with np.errstate(all="ignore"):
        return as_sym(float(f(np.float64(a), np.float64(b))))


def _num(o):
    return isinstance(o, (Sym, numbers.Real, np.floating, np.integer, np.bool_))


class Sym(numbers.Number):
    __slots__ = ("p", "sp")
    __array_priority__ = -1e6
    dtype = np.dtype(object)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, p, sp=None):
        self.p = p
        self.sp = sp  # nan / +-inf constant

    # -- inspection
    @property
    def const(self):
        """float value when constant, else None"""
        if self.p is None:
            return self.sp
        if not self.p:
            return 0.0
        if len(self.p) == 1 and ONE in self.p:
            return self.p[ONE]
        return None

    def __repr__(self):
        c = self.const
        if c is not None:
            return repr(c)
        if len(self.p) > 6:
            return "<sym %d terms>" % len(self.p)
        out = []
        for m, c in self.p.items():
            out.append("*".join(["%.6g" % c] + [
                T.atoms[i].name + ("" if e == 1 else "^%d" % e) for i, e in m]))
        return "<" + " + ".join(out) + ">"

    __str__ = __repr__

    def __format__(self, spec):
        c = self.const
        if c is not None:
            return format(c, spec)
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return hash(self.const) if self.const is not None else hash(
            tuple(sorted((m, round(c, 9)) for m, c in self.p.items())))

    def __float__(self):
        c = self.const
        if c is not None:
            return c
        raise EngineLimit("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        c = self.const
        if c is not None:
            return int(c)
        return E.concretise_int(self, trunc=True)

    def __index__(self):
        c = self.const
        if c is not None and c == int(c):
            return int(c)
        return E.concretise_int(self, trunc=False)

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __round__(self, n=None):
        c = self.const
        if c is not None:
            return as_sym(round(c, n) if n is not None else float(round(c)))
        if n is None or n == 0:
            return self.rint()
        if n in range(3, 13):  # x + error of rounding (bounded, otherwise unconstrained: an over-approximation)
            return self + s_uf("rnd%d" % n, self)
        k = 10.0 ** n
        return (self * k).rint() / k

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = as_sym(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, s_add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: s_sub(b, a))

    def __mul__(self, o):
        return self._bin(o, s_mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: s_div(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: s_floor(s_div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: s_floor(s_div(b, a)))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * s_floor(s_div(a, b)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: b - a * s_floor(s_div(b, a)))

    def __pow__(self, o):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: s_pow(b, a))

    def __neg__(self):
        return s_mul(self, as_sym(-1.0))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.p is None:
            return as_sym(abs(self.sp))
        lo, hi = p_interval(self.p)
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return self if E.decide(">=", self.p) else -self

    # numpy object-ufunc methods
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_uf("exp", self)

    def exp2(self):
        return s_pow(as_sym(2.0), self)

    def expm1(self):
        return self.exp() - 1.0

    def log(self):
        return s_uf("log", self)

    def log1p(self):
        return (self + 1.0).log()

    def log10(self):
        return s_uf("log10", self)

    def log2(self):
        return self.log() / math.log(2.0)

    def sin(self):
        return s_uf("sin", self)

    def cos(self):
        return s_uf("cos", self)

    def tan(self):
        return self.sin() / self.cos()

    def arctan(self):
        return s_uf("arctan", self)

    deg2rad = lambda self: self.radians()
    rad2deg = lambda self: self.degrees()

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2

    def tanh(self):
        e = (self * 2).exp()
        return (e - 1) / (e + 1)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return -s_floor(-self)

    def trunc(self):
        return s_floor(self) if self >= 0 else -s_floor(-self)

    def fabs(self):
        return abs(self)

    def rint(self):
        # round-half-even; ties are resolved by an explicit fork
        c = self.const
        if c is not None:
            return as_sym(float(np.rint(c)))
        f = s_floor(self)
        d = self - f
        if d < 0.5:
            return f
        if d > 0.5:
            return f + 1
        h = s_floor(f / 2) * 2
        return f if h == f else f + 1

    def square(self):
        return self * self

    def reciprocal(self):
        return 1.0 / self

    def hypot(self, o):
        return s_sqrt(self * self + as_sym(o) * as_sym(o))

    def conjugate(self):
        return self

    def sign(self):
        if self > 0:
            return as_sym(1.0)
        return as_sym(-1.0) if self < 0 else as_sym(0.0)

    def degrees(self):
        return self * (180.0 / math.pi)

    def radians(self):
        return self * (math.pi / 180.0)

    def logical_not(self):
        return not bool(self)

    def isnan(self):
        return self.p is None and self.sp != self.sp

    def isfinite(self):
        return self.p is not None

    def isinf(self):
        return self.p is None and self.sp == self.sp

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return as_sym(0.0)

    def item(self, *a):
        return self

    def copy(self, *a):
        return self

    def astype(self, dtype=None, *a, **k):
        if dtype is not None and np.dtype(dtype).kind in "iu":
            return self.trunc()
        return self

    def tolist(self):
        return self

    def squeeze(self, *a, **k):
        return self

    max = min = sum = mean = prod = conj = squeeze

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None and r < lo:
            r = as_sym(lo)
        if hi is not None and r > hi:
            r = as_sym(hi)
        return r

    def round(self, n=0):
        return self.__round__(n)

    @property
    def T(self):
        return self

    def ravel(self, *a):
        o = np.empty(1, dtype=object)
        o[0] = self
        return o

    flatten = ravel

    def is_integer(self):
        c = self.const
        if c is not None:
            return float(c).is_integer()
        return bool(s_floor(self) == self)

    # -- comparisons (fork)
    def _cmp(self, o, rel, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = as_sym(o)
        if o is None:
            if rel == "==":
                return False
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if a.p is None or b.p is None:
            if a.isnan() or b.isnan():
                return False
            x = a.sp if a.p is None else 0.0
            y = b.sp if b.p is None else 0.0
            return {">": x > y, ">=": x >= y, "==": x == y}[rel]
        return E.decide(rel, p_add(a.p, b.p, -1.0))

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __lt__(self, o):
        return self._cmp(o, ">", True)

    def __le__(self, o):
        return self._cmp(o, ">=", True)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return r if r is NotImplemented else not r

    def __bool__(self):
        if self.p is None:
            return True
        return not E.decide("==", self.p)


numbers.Real.register  # Sym is deliberately *not* a Real: float(Sym) has no value


def s_add(a, b):
    if a.p is None or b.p is None:
        return const_op(np.add, a.sp if a.p is None else 0.0, b.sp if b.p is None else 0.0)
    return Sym(p_add(a.p, b.p))


def s_sub(a, b):
    if a.p is None or b.p is None:
        return const_op(np.subtract, a.sp if a.p is None else 0.0, b.sp if b.p is None else 0.0)
    return Sym(p_add(a.p, b.p, -1.0))


def _sgn(a):
    """float with the sign of a (0, 1, -1), forking if needed"""
    if a.p is None:
        return a.sp
    if not a.p:
        return 0.0
    if E.decide(">", a.p):
        return 1.0
    return 0.0 if E.decide("==", a.p) else -1.0


def s_mul(a, b):
    if a.p is None or b.p is None:
        if a.isnan() or b.isnan():
            return as_sym(float("nan"))
        return const_op(np.multiply, _sgn(a), _sgn(b))
    return Sym(p_mul(a.p, b.p))


def s_div(a, b):
    if a.p is None or b.p is None:
        if a.isnan() or b.isnan():
            return as_sym(float("nan"))
        if b.p is None and a.p is not None:
            return as_sym(0.0)
        return const_op(np.divide, _sgn(a), _sgn(b))
    if not b.p or E.decide("==", b.p):
        return const_op(np.divide, _sgn(a), 0.0)
    if not a.p:
        return a
    if len(b.p) > 1 and len(a.p) > 1 and set(a.p) == set(b.p):
        # quick exact cancellation  k*b / b
        m0 = next(iter(b.p))
        k = a.p[m0] / b.p[m0]
        if all(abs(a.p[m] - k * c) <= 4 * SNAP * abs(a.p[m]) for m, c in b.p.items()):
            return as_sym(k)
    return Sym(p_mul(a.p, p_inv(b.p)))


def s_pow(a, b):
    c = b.const
    k = a.const
    if c is not None and k is not None:
        return const_op(np.power, k, c)
    if c is not None:
        if c == int(c) and abs(c) <= 16:
            n = int(c)
            if n == 0:
                return as_sym(1.0)
            r = a
            for _ in range(abs(n) - 1):
                r = s_mul(r, a)
            return r if n > 0 else s_div(as_sym(1.0), r)
        if (2 * c) == int(2 * c) and abs(c) <= 8:
            n = int(2 * c)
            s = s_sqrt(a)
            return s_pow(s, as_sym(float(n)))
        if a.p is None:
            return const_op(np.power, a.sp, c)
        if a < 0:
            return as_sym(float("nan"))
        return s_uf("pow", a, (c,))
    if k is not None:
        if k <= 0:
            raise EngineLimit("symbolic power of a non-positive base")
        if k == 10.0:
            # 10**log10(x) = x
            if len(b.p) == 1:
                (m, cc), = b.p.items()
                if cc == 1.0 and len(m) == 1 and m[0][1] == 1:
                    at = T.atoms[m[0][0]]
                    if at.kind == "log10":
                        return Sym(dict(at.args[0]))
            return s_uf("exp10", b)
        return s_uf("exp", b * math.log(k))
    return s_uf("exp", b * a.log())


def _mono(f, x):
    try:
        return f(x)
    except OverflowError:
        return INF
    except ValueError:
        return -INF


UF = {
    "exp": (math.exp, lambda l, h: (_mono(math.exp, l) * (1 - 1e-12) if l > -INF else 0.0,
                                    _mono(math.exp, h) * (1 + 1e-12) if h < INF else INF)),
    "exp10": (lambda x: 10.0 ** x, lambda l, h: ((10.0 ** l if l < 300 else 1e300) if l > -INF else 0.0,
                                                 (10.0 ** h if h < 300 else INF))),
    "log": (math.log, lambda l, h: (math.log(l) - 1e-9 if l > 0 else -INF, math.log(h) + 1e-9 if 0 < h < INF else INF)),
    "log10": (math.log10, lambda l, h: (math.log10(l) - 1e-9 if l > 0 else -INF, math.log10(h) + 1e-9 if 0 < h < INF else INF)),
    "sin": (math.sin, lambda l, h: (-1.0, 1.0)),
    "cos": (math.cos, lambda l, h: (-1.0, 1.0)),
    "arctan": (math.atan, lambda l, h: (-1.6, 1.6)),
}

for _n in range(1, 13):
    UF["rnd%d" % _n] = (lambda x, n=_n: float(np.round(x, n)) - x, lambda l, h, n=_n: (-0.5000001 * 10.0 ** -n, 0.5000001 * 10.0 ** -n))


def s_uf(kind, a, extra=()):
    c = a.const
    if kind == "pow":
        if c is not None:
            return const_op(np.power, c, extra[0])
        lo, hi = p_interval(a.p)
        e = extra[0]
        lo = max(lo, 0.0)
        if e > 0:
            b = (lo ** e * (1 - 1e-12), hi ** e * (1 + 1e-12) if hi < INF else INF)
        else:
            b = (hi ** e if 0 < hi < INF else 0.0, lo ** e if lo > 0 else INF)
        at = T.func("pow", [a.p], *b, extra=extra)
        return Sym({((at.id, 1),): 1.0})
    if c is not None:
        with np.errstate(all="ignore"):
            f = {"exp10": lambda x: np.power(10.0, x)}.get(kind) or getattr(np, kind)
            return as_sym(float(f(np.float64(c))))
    if kind in ("log", "log10"):
        if not a > 0:
            return as_sym(-INF if a == 0 else float("nan"))
    lo, hi = p_interval(a.p)
    b = UF[kind][1](lo, hi)
    at = T.func(kind, [a.p], *b)
    return Sym({((at.id, 1),): 1.0})


def s_sqrt(a):
    c = a.const
    if c is not None:
        with np.errstate(all="ignore"):
            return as_sym(float(np.sqrt(np.float64(c))))
    if a < 0:
        return as_sym(float("nan"))
    k, cont, core = p_split(a.p)
    # take even powers of sign-definite atoms out of the root
    out, inn = [], []
    for i, e in cont:
        at = T.atoms[i]
        if at.lo >= 0:
            h = e // 2 if e > 0 else -((-e) // 2)
            if h:
                out.append((i, h))
            if e - 2 * h:
                inn.append((i, e - 2 * h))
        else:
            inn.append((i, e))
    inner = p_mulmono(core, tuple(inn)) if inn else core
    if k < 0:
        inner = p_scale(inner, -1.0)
        k = -k
    res = {tuple(out): math.sqrt(k)}
    if not (len(inner) == 1 and ONE in inner):
        lo, hi = p_interval(inner)
        at = T.func("sqrt", [inner], math.sqrt(max(lo, 0.0)) * (1 - 1e-12),
                    math.sqrt(hi) * (1 + 1e-12) if hi < INF else INF)
        res = p_mulmono(res, ((at.id, 1),))
    elif inner[ONE] != 1.0:
        res = p_scale(res, math.sqrt(inner[ONE]))
    return Sym(res)


def s_max(xs):
    """largest of several values, without forking"""
    xs = [as_sym(x) for x in xs]
    for x in xs:
        if x.p is None:
            if x.isnan():
                return x
    if any(x.p is None for x in xs):
        fin = [x for x in xs if x.p is not None]
        if any(x.p is None and x.sp > 0 for x in xs):
            return as_sym(INF)
        return s_max(fin) if fin else as_sym(-INF)
    pb = getattr(E, "pb", None)
    keep = []
    for x in xs:
        drop = False
        for k in range(len(keep) - 1, -1, -1):
            y = keep[k]
            if len(x.p) == len(y.p) and x.p.keys() == y.p.keys() and poly_close(x.p, y.p):
                drop = True
                break
            d = p_add(x.p, y.p, -1.0)
            if Engine.quick(None, ">=", d, pb):
                keep.pop(k)
            elif Engine.quick(None, ">=", p_scale(d, -1.0), pb):
                drop = True
                break
        if not drop:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    if FORK_EXTREMES:
        r = keep[0]
        for x in keep[1:]:
            r = r if r >= x else x
        return r
    ps = [x.p for x in keep]
    cont = p_content({m: 1.0 for p in ps for m in p})
    cont = tuple((i, e) for i, e in cont if T.atoms[i].lo >= 0 and (e > 0 or T.atoms[i].lo > 0))
    if cont:
        ps = [p_mulmono(p, m_inv(cont)) for p in ps]
    ps.sort(key=lambda p: (sorted(p), [p[m] for m in sorted(p)]))
    k = next(abs(p[min(p)]) for p in ps if p)
    ps = [p_scale(p, 1.0 / k) for p in ps]
    iv = [p_interval(p) for p in ps]
    at = T.func("max", ps, max(l for l, h in iv), max(h for l, h in iv))
    r = {((at.id, 1),): k}
    if cont:
        r = p_mulmono(r, cont)
    return Sym(r)


def s_min(xs):
    return -s_max([-as_sym(x) for x in xs])


def _floor_log(p):
    """floor of c*log(X) or +-log(X)/log(Y), by exact comparisons of X with powers (forks); None if not of that form"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    num = [i for i, e in m if e == 1 and T.atoms[i].kind in ("log", "log10")]
    den = [i for i, e in m if e == -1 and T.atoms[i].kind in ("log", "log10")]
    if len(num) > 1 or len(den) > 1 or len(m) != len(num) + len(den):
        return None
    if num:
        X = Sym(T.atoms[num[0]].args[0])
    else:  # log of a constant over log(Y)
        b = math.e if T.atoms[den[0]].kind == "log" else 10.0
        X = as_sym(b ** abs(c))
    lo, hi = p_interval(p)
    if lo == -INF or hi == INF or hi - lo > 60:
        return None
    if den:
        if num and (T.atoms[den[0]].kind != T.atoms[num[0]].kind or c not in (1.0, -1.0)) or not T.atoms[den[0]].lo > 0:
            return None
        Y = Sym(T.atoms[den[0]].args[0])
        thr = lambda k: Y ** int(k)
    else:
        base = math.e if T.atoms[num[0]].kind == "log" else 10.0
        thr = lambda k: as_sym(base ** (k / abs(c)))
    lo, hi = math.floor(lo), math.floor(hi)
    if c > 0:  # largest k with Y^k <= X
        for k in range(hi, lo, -1):
            if X >= thr(k):
                return as_sym(float(k))
        return as_sym(float(lo))
    # floor(-L) = -ceil(L): smallest k with X <= Y^k
    for k in range(-hi, -lo):
        if X <= thr(k):
            return as_sym(float(-k))
    return as_sym(float(lo))


FORK_EXTREMES = False  # maxima and minima are decided by forking (checks.C18)
FORK_FLOOR = 0      # floors of values within such a range are decided by forking (checks.C18)


def s_floor(a):
    c = a.const
    if c is not None:
        return as_sym(float(np.floor(c)))
    if all(abs(c - round(c)) == 0 and all(T.atoms[i].isint and e > 0 for i, e in m) for m, c in a.p.items()):
        return a
    r = _floor_log(a.p)
    if r is not None:
        return r
    lo, hi = p_interval(a.p)
    if FORK_FLOOR and hi - lo < FORK_FLOOR:
        for k in range(math.floor(lo) + 1, math.floor(hi) + 1):
            if a < k:
                return as_sym(float(k - 1))
        return as_sym(float(math.floor(hi)))
    at = T.func("floor", [a.p], math.floor(lo) if lo > -INF else lo,
                math.floor(hi) if hi < INF else hi, isint=True)
    return Sym({((at.id, 1),): 1.0})


# --------------------------------------------------------------------- evaluation
def eval_atom(i, env, cache):
    if i in cache:
        return cache[i]
    a = T.atoms[i]
    if a.kind == "var":
        v = env[a.name]
    elif a.kind == "sqrt":
        v = math.sqrt(max(eval_poly(a.args[0], env, cache), 0.0))
    elif a.kind == "inv":
        v = 1.0 / eval_poly(a.args[0], env, cache)
    elif a.kind == "floor":
        v = math.floor(eval_poly(a.args[0], env, cache))
    elif a.kind == "pow":
        v = eval_poly(a.args[0], env, cache) ** a.fn[0]
    elif a.kind == "max":
        v = max(eval_poly(p, env, cache) for p in a.args)
    else:
        v = UF[a.kind][0](eval_poly(a.args[0], env, cache))
    cache[i] = v
    return v


def eval_poly(p, env, cache=None):
    cache = {} if cache is None else cache
    s = 0.0
    for m, c in p.items():
        t = c
        for i, e in m:
            t *= eval_atom(i, env, cache) ** e
        s += t
    return s


def eval_sym(x, env, cache=None):
    x = as_sym(x)
    if x.p is None:
        return x.sp
    return eval_poly(x.p, env, cache)


# ------------------------------------------------------------------------- z3 side
def zq(c):
    f = Fraction(c)
    return z3.Q(f.numerator, f.denominator)


class Encoder:
    """Polynomials to Z3 terms; adds the defining constraints of the atoms used."""

    def __init__(self, linear):
        self.linear = linear
        self.seen = set()
        self.mono = {}
        self.cons = []

    def atom(self, i):
        a = T.atoms[i]
        if a.z3v is None:
            a.z3v = z3.Int(a.name) if a.isint else z3.Real(a.name)
        v = z3.ToReal(a.z3v) if a.isint else a.z3v
        if i not in self.seen:
            self.seen.add(i)
            if a.lo > -INF:
                self.cons.append(v >= zq(a.lo))
            if a.hi < INF:
                self.cons.append(v <= zq(a.hi))
            if a.kind == "floor":
                t = self.poly(a.args[0])
                self.cons += [v <= t, t < v + 1]
            elif a.kind == "max":
                ts = [self.poly(p) for p in a.args]
                self.cons += [v >= t for t in ts]
                self.cons.append(z3.Or([v == t for t in ts]))
            elif a.kind == "sqrt" and not self.linear:
                self.cons.append(v * v == self.poly(a.args[0]))
            elif a.kind == "inv" and not self.linear:
                self.cons.append(v * self.poly(a.args[0]) == 1)
        return v

    def monomial(self, m):
        if not m:
            return None
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        t = self.mono.get(m)
        if t is not None:
            return t
        if self.linear:
            t = z3.Real("m%d_%s" % (len(self.mono), "_".join("%d^%d" % x for x in m)))
            lo, hi = m_interval(m)
            if lo > -INF:
                self.cons.append(t >= zq(lo * (1 - 1e-9) if lo > 0 else lo * (1 + 1e-9)))
            if hi < INF:
                self.cons.append(t <= zq(hi * (1 + 1e-9) if hi > 0 else hi * (1 - 1e-9)))
        else:
            num, den = None, None
            for i, e in m:
                v = self.atom(i)
                for _ in range(abs(e)):
                    if e > 0:
                        num = v if num is None else num * v
                    else:
                        den = v if den is None else den * v
            if den is None:
                t = num
            else:
                t = z3.Real("q_%s" % "_".join("%d^%d" % x for x in m))
                self.cons.append(t * den == (num if num is not None else 1))
                lo, hi = m_interval(m)
                if lo > -INF:
                    self.cons.append(t >= zq(lo * (1 - 1e-9) if lo > 0 else lo * (1 + 1e-9)))
        self.mono[m] = t
        return t

    def poly(self, p, scale=None):
        if not p:
            return z3.Q(0, 1)
        ts = []
        for m, c in p.items():
            if scale:
                c = c * scale
            t = self.monomial(m)
            k = zq(c)
            ts.append(k if t is None else (t if c == 1.0 else k * t))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def rel(self, rel, p):
        s = max((abs(c) for c in p.values()), default=1.0)
        sc = 1.0 / pow2(s) if s and (s > 1e3 or s < 1e-3) else None
        t = self.poly(p, sc)
        if rel == ">":
            return t > 0
        if rel == ">=":
            return t >= 0
        if rel == "==":
            return t == 0
        if rel == "!=":
            return t != 0
        raise ValueError(rel)


def pow2(x):
    """power of two near |x| (exact scaling)"""
    return math.ldexp(1.0, math.frexp(x)[1]) if x else 1.0


NEG = {">": (">=", -1.0), ">=": (">", -1.0), "==": ("!=", 1.0), "!=": ("==", 1.0)}


def negate(lit):
    rel, p = lit
    r, s = NEG[rel]
    return (r, p_scale(p, s) if s != 1.0 else p)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.interval = 0
        self.decisions = 0
        self.paths = 0
        self.aborted = 0
        self.assertions = 0
        self.obligations = 0
        self.obl_unsat = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """One symbolic exploration (a depth-first walk over the decision tree)."""

    def __init__(self, timeout_ms=20000, max_paths=5000, deadline=None):
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.active = False
        self.prefix = []
        self.trace = []
        self.pc = []
        self.pb = {}
        self.unknown_branches = 0
        self.touched = []

    # -- solver
    def solve(self, lits, linear=False, timeout=None, extra=None, model=False, seed=None):
        """'sat' | 'unsat' | 'unknown' for the conjunction of literals."""
        enc = Encoder(linear)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        if seed is not None:
            s.set("random_seed", seed)
        fs = [enc.rel(*l) for l in lits]
        if extra is not None:
            fs.append(extra(enc))
        done = 0
        s.add(*fs)
        s.add(*enc.cons)
        t0 = time.time()
        r = str(s.check())
        self.stats.solver_s += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("SLOW %.1f s %s linear=%s %s" % (time.time() - t0, r, linear, "obligation" if extra is not None else "branch"), file=sys.stderr)
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if model and r == "sat":
            return r, self.extract(s.model())
        return (r, None) if model else r

    def extract(self, m):
        env = {}
        for a in T.atoms:
            if a.kind != "var":
                continue
            v = None
            if a.z3v is not None:
                v = m.eval(a.z3v, model_completion=False)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if z3.is_rational_value(v) or z3.is_int_value(v):
                    v = Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else Fraction(v.as_long())
                else:
                    v = None
            if v is None:
                lo = a.lo if a.lo > -INF else (a.hi - 1 if a.hi < INF else 0.5)
                hi = a.hi if a.hi < INF else lo + 1
                v = lo + (hi - lo) * 0.37
                if a.isint:
                    v = math.floor(v)
            f = float(v)
            if a.isint:
                f = int(f)
            env[a.name] = f
        return env

    def feasible(self, lits):
        """Feasibility over-approximation: unknown counts as feasible."""
        rel = self.relevant(lits)
        r = self.solve(rel, linear=True, timeout=2000)
        if r == "unsat":
            return False
        if all(self.is_linear(l[1]) for l in rel):
            if r == "unknown":
                self.unknown_branches += 1
            return True
        r = self.solve(rel, linear=False, timeout=3000)
        if r == "unknown":
            self.unknown_branches += 1
        return r != "unsat"

    @staticmethod
    def is_linear(p):
        for m in p:
            if not m:
                continue
            if len(m) > 1 or m[0][1] != 1:
                return False
            a = T.atoms[m[0][0]]
            if a.kind.startswith("rnd"):
                continue
            if a.kind not in ("var", "floor", "max") or not all(Engine.is_linear(q) for q in a.args):
                return False
        return True

    @staticmethod
    def atoms_of(p, acc):
        for m in p:
            for i, _ in m:
                if i not in acc:
                    acc.add(i)
                    for q in T.atoms[i].args:
                        Engine.atoms_of(q, acc)
        return acc

    def relevant(self, lits, seed=None):
        """Literals of the path condition connected to the last literal (slicing)."""
        cond = self.pc + list(lits)
        sets = [self.atoms_of(l[1], set()) for l in cond]
        n = len(self.pc)
        keep = set(range(n, len(cond)))
        reach = set() if seed is None else set(seed)
        for k in keep:
            reach |= sets[k]
        changed = True
        while changed:
            changed = False
            for k in range(n):
                if k not in keep and sets[k] & reach:
                    keep.add(k)
                    if not sets[k] <= reach:
                        reach |= sets[k]
                    changed = True
        return [cond[k] for k in sorted(keep)]

    # -- decisions
    def quick(self, rel, p, pb=None):
        if not p:
            return rel != ">"
        if len(p) == 1 and ONE in p:
            c = p[ONE]
            return {">": c > 0, ">=": c >= 0, "==": False}[rel]
        # normalise by a sign-definite common factor for a sharper interval
        lo, hi = p_interval(p, pb)
        if rel == ">":
            if lo > 0:
                return True
            if hi <= 0:
                return False
        elif rel == ">=":
            if lo >= 0:
                return True
            if hi < 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
        return None

    def decide(self, rel, p):
        if not self.active:
            q = self.quick(rel, p)
            if q is None:
                raise EngineLimit("comparison outside an exploration")
            return q
        q = self.quick(rel, p, self.pb)
        if q is not None:
            self.stats.interval += 1
            return q
        cont = p_content(p)
        if cont and all(T.atoms[i].lo > 0 for i, e in cont):
            p = p_mulmono(p, m_inv(cont))
            q = self.quick(rel, p, self.pb)
            if q is not None:
                self.stats.interval += 1
                return q
        s = pow2(max(abs(c) for c in p.values()))
        p = {m: c / s for m, c in p.items()}
        k = len(self.trace)
        lit = (rel, p)
        nlit = negate(lit)
        # already implied syntactically?
        for l in self.pc:
            if l[0] == rel and len(l[1]) == len(p) and l[1].keys() == p.keys() and poly_close(l[1], p):
                return True
            if l[0] == nlit[0] and len(l[1]) == len(p) and l[1].keys() == nlit[1].keys() and poly_close(l[1], nlit[1]):
                return False
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted")
        if k < len(self.prefix):
            choice, both = self.prefix[k]
        else:
            t = self.feasible([lit])
            f = self.feasible([nlit]) if t else True
            choice, both = (True, t and f) if t else (False, False)
        self.trace.append((choice, both))
        self.stats.decisions += 1
        self.pc.append(lit if choice else nlit)
        self.learn(*self.pc[-1])
        return choice

    def learn(self, rel, p):
        """single-atom linear literals tighten the path's bounds of that atom"""
        if rel == "!=" or len(p) > 2:
            return
        m = [k for k in p if k]
        if len(m) != 1 or len(m[0]) != 1 or m[0][0][1] != 1:
            return
        i, k = m[0][0][0], p[m[0]]
        b = -p.get(ONE, 0.0) / k
        w = 1e-13 * abs(b)
        lo, hi = self.pb.get(i) or (T.atoms[i].lo, T.atoms[i].hi)
        if rel == "==" or k > 0:
            lo = max(lo, b - w)
        if rel == "==" or k < 0:
            hi = min(hi, b + w)
        if lo <= hi:
            self.pb[i] = (lo, hi)

    def assume(self, rel, p):
        q = self.quick(rel, p)
        if q is False:
            raise PathAbort("assumption false")
        if q is None:
            self.pc.append((rel, p))
            # cheap check only: contradictory assumptions show up as infeasible paths
            if not self.feasible([(rel, p)]):
                self.pc.pop()
                raise PathAbort("assumption infeasible")

    def concretise_int(self, x, trunc):
        """Fork over the integer values x can take."""
        v = x
        if trunc:
            lo0, hi0 = p_interval(x.p)
            v = s_floor(x) if (lo0 >= 0 or x >= 0) else -s_floor(-x)
        lo, hi = p_interval(v.p) if v.const is None else (v.const, v.const)
        if lo == -INF or hi == INF or hi - lo > 200:
            raise EngineLimit("integer range too wide to enumerate")
        for k in range(int(math.ceil(lo)), int(math.floor(hi))):
            if v == k:
                return k
        if not (v == int(math.floor(hi))):
            raise EngineLimit("index is not an integer")
        return int(math.floor(hi))

    # -- exploration
    def run(self, fn):
        """Run fn along every feasible path; fn(engine) is called once per path."""
        global E
        stack = [[]]
        while stack:
            pre = stack.pop()
            if self.stats.paths >= self.max_paths:
                raise Inconclusive("path bound %d exceeded" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time budget exhausted")
            self.prefix, self.trace, self.pc, self.pb = pre, [], [], {}
            self.active = True
            old, E_ = E, self
            set_engine(self)
            try:
                fn(self)
                self.stats.paths += 1
            except PathAbort:
                self.stats.aborted += 1
            finally:
                self.active = False
                set_engine(old)
            for k in range(len(pre), len(self.trace)):
                c, both = self.trace[k]
                if both:
                    stack.append(self.trace[:k] + [(not c, False)])


numbers.Real.register(Sym)


class _NoEngine:
    active = False

    def decide(self, rel, p):
        q = Engine.quick(None, rel, p)
        if q is None:
            raise EngineLimit("comparison outside an exploration")
        return q

    def concretise_int(self, x, trunc):
        raise EngineLimit("int() outside an exploration")


E = _NoEngine()


def set_engine(e):
    global E
    E = e
