"""Harness context: one harness runs symbolically, guided (for encoding validation) and
concretely (replay against the unmodified code)."""
import math
import sys

import os

import numpy as np
import astropy.units as u
from astropy.units import Quantity


MISSING = object()


class CheckFailed(Exception):
    pass


class Skip(BaseException):
    """assumption violated in a concrete run"""


RTOL_SYM = 1e-6
RTOL_CONC = 1e-7


class BaseCtx:
    symbolic = False
    uid = "b"  # tells the files of this run from those of an earlier use

    def __init__(self, tier="quick"):
        self.tier = tier
        self.thorough = tier == "thorough"
        self._undo = []
        self.rec = []

    # ---- environment patches (identical in every mode)
    def patch(self, module, name, new):
        """Replace module.name by new everywhere in the package under test (a stub)."""
        from . import shims
        mod = sys.modules.get(module)
        old = getattr(mod, name, None) if mod is not None else None
        for m in shims.pkg_modules():
            if name in m.__dict__ and (m.__dict__[name] is old or m is mod):
                self._undo.append((m, name, m.__dict__[name]))
                m.__dict__[name] = new

    def setattr(self, obj, name, new):
        if isinstance(obj, type):
            self._undo.append((obj, name, obj.__dict__.get(name, MISSING)))
        else:
            self._undo.append((obj, name, obj.__dict__.get(name, getattr(obj, name, None))))
        setattr(obj, name, new)

    def lib(self, module, name, new):
        """Replace a library function (module: "scipy.signal") wherever the package may find it: in the
        library itself and under any name it was imported as."""
        import importlib
        from . import shims
        obj = importlib.import_module(module) if isinstance(module, str) else module
        homes = [obj]
        if isinstance(module, str) and shims.PROXY.get(module) is not None:
            homes.append(shims.PROXY[module])
        olds = [getattr(h, name) for h in homes]
        for h in homes:
            self.setattr(h, name, new)
        for m in shims.pkg_modules():
            for k, v in list(m.__dict__.items()):
                if any(v is o for o in olds):
                    self._undo.append((m, k, v))
                    m.__dict__[k] = new

    def enter(self, cm):
        """enter a context that lasts to the end of the run"""
        v = cm.__enter__()
        self._undo.append((cm, None, None))
        return v

    def undo(self):
        while self._undo:
            o, n, v = self._undo.pop()
            if n is None:
                o.__exit__(None, None, None)
            elif isinstance(o, dict):
                o[n] = v
            elif v is MISSING:
                delattr(o, n)
            else:
                setattr(o, n, v)

    def literal(self, v):
        """text of the number v, as found in an input file"""
        return repr(float(v))

    # ---- derived inputs
    def reals(self, name, n, lo, hi, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def q(self, values, unit):
        return self.arr(values) * u.Unit(unit) if isinstance(values, (list, tuple, np.ndarray)) else self.scalar_q(values, unit)

    # ---- assertions
    def fail(self, label, msg=""):
        self.true(label, False, msg)


def flatten(x):
    """-> (list of scalars, unit, shape)"""
    unit = getattr(x, "unit", None)
    if isinstance(x, Quantity):
        a = x.value
    else:
        a = x
    if isinstance(a, (list, tuple)) and any(isinstance(v, Quantity) for v in a):
        unit = next(v.unit for v in a if isinstance(v, Quantity))
        a = [v.to(unit).value if isinstance(v, Quantity) else v for v in a]
        a = [v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v for v in a]
    from .core import Sym
    if isinstance(a, Sym):
        return [a], unit, ()
    arr = np.array(a, dtype=object, subok=False)
    return list(arr.reshape(-1)), unit, arr.shape


def align(got, want, label):
    g, gu, gs = flatten(got)
    w, wu, ws = flatten(want)
    fac = 1.0
    gu_, wu_ = gu or u.dimensionless_unscaled, wu or u.dimensionless_unscaled
    if wu is not None or gu is not None:
        try:
            fac = u.Unit(gu_).to(u.Unit(wu_))
        except u.UnitConversionError:
            raise CheckFailed("%s: unit %s, expected %s" % (label, gu, wu))
    if len(g) != len(w):
        raise CheckFailed("%s: %s values, expected %s" % (label, gs, ws))
    return g, w, fac


# ------------------------------------------------------------------------- concrete
class ConcreteCtx(BaseCtx):
    slack = 1e-9  # distance kept from points decided by rounding

    def __init__(self, env, tier="quick"):
        super().__init__(tier)
        self.env = env

    def real(self, name, lo, hi, strict=False):
        v = float(self.env[name]) if name in self.env else float(lo + (hi - lo) * 0.37)
        return v

    def int(self, name, lo, hi):
        return int(self.env.get(name, lo))

    def symint(self, name, lo, hi):
        return float(int(self.env.get(name, lo)))

    def arr(self, values):
        return np.array(values, dtype=float)

    def scalar_q(self, v, unit):
        return float(v) * u.Unit(unit)

    def assume(self, cond):
        if not cond:
            raise Skip()

    sqrt = staticmethod(lambda x: math.sqrt(x) if x >= 0 else float("nan"))
    exp = staticmethod(math.exp)
    log10 = staticmethod(math.log10)
    log = staticmethod(math.log)
    floor = staticmethod(lambda x: float(math.floor(x)))
    max = staticmethod(lambda xs: max(float(x) for x in xs))
    min = staticmethod(lambda xs: min(float(x) for x in xs))

    @staticmethod
    def div(a, b):
        with np.errstate(all="ignore"):
            return float(np.divide(float(a), float(b)))

    def eq(self, label, got, want, rtol=None, scale=None):
        g, w, f = align(got, want, label)
        vals = []
        for k, (a, b) in enumerate(zip(g, w)):
            try:
                a = float(a) * f
            except (TypeError, ValueError):
                raise CheckFailed("%s[%d]: got %r" % (label, k, a))
            b = float(b)
            vals.append(a)
            if a != a and b != b:
                continue
            if a == b:
                continue
            tol = (rtol or RTOL_CONC) * max(abs(b), scale or 0.0)
            if b == 0 and not scale:
                tol = 1e-300
            if not abs(a - b) <= tol:
                self.rec.append([label, vals])
                raise CheckFailed("%s[%d]: got %r, expected %r" % (label, k, a, b))
        self.rec.append([label, vals])

    def true(self, label, cond, msg=""):
        c = bool(cond)
        self.rec.append([label, [float(c)]])
        if not c:
            raise CheckFailed("%s %s" % (label, msg))

    def reached(self, label):
        self.rec.append([label, [1.0]])


class RandomCtx(ConcreteCtx):
    """concrete run on random inputs, which are recorded (an earlier use of the code)"""

    def __init__(self, rng, tier="quick"):
        super().__init__({}, tier)
        self.rng = rng
        self.uid = "a"

    def real(self, name, lo, hi, strict=False):
        if name not in self.env:
            self.env[name] = self.rng.uniform(float(lo), float(hi))
        return super().real(name, lo, hi, strict)

    def int(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = self.rng.randint(int(lo), int(hi))
        return super().int(name, lo, hi)

    def symint(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = self.rng.randint(int(lo), int(hi))
        return super().symint(name, lo, hi)


def history(fn, rng, tier):
    """inputs of a run that goes through; None if there is none"""
    for _ in range(20):
        c = RandomCtx(rng, tier)
        try:
            fn(c)
            return dict(c.env)
        except (Exception, Skip):
            if os.environ.get("SYMX_DEBUG") == "2":
                import traceback
                traceback.print_exc()
        finally:
            c.undo()
    return None


def rerun(fn, env, tier):
    """an earlier use of the code, whose outcome does not matter"""
    c = ConcreteCtx(env, tier)
    c.uid = "a"
    try:
        fn(c)
    except (Exception, Skip):
        pass
    finally:
        c.undo()


# ------------------------------------------------------------------------- symbolic
class SymCtx(BaseCtx):
    slack = 2e-9  # more than in the replay: counterexamples on the limit can be replayed

    symbolic = True

    def __init__(self, engine, tier="quick"):
        super().__init__(tier)
        from . import core
        self.c = core
        self.e = engine
        self.guided = isinstance(engine, Guided)
        self.candidates = []
        self.labels = set()
        self.nchecks = 0

    def real(self, name, lo, hi, strict=False):
        a = self.c.T.var(name, float(lo), float(hi))
        s = self.c.Sym({((a.id, 1),): 1.0})
        if strict:
            self.assume(s > lo)
            self.assume(s < hi)
        return s

    def literal(self, v):
        from . import shims
        s = self.c.as_sym(v)
        if s.const is not None:
            return repr(float(s.const))
        k = "7654321.%06d1" % len(shims.LITERALS)
        shims.LITERALS[k] = s
        return k

    def symint(self, name, lo, hi):
        a = self.c.T.var(name, float(lo), float(hi), True)
        return self.c.Sym({((a.id, 1),): 1.0})

    def int(self, name, lo, hi):
        return self.e.concretise_int(self.symint(name, lo, hi), False)

    def arr(self, values):
        from .shims import objarr
        return objarr(list(values))

    def scalar_q(self, v, unit):
        s = self.c.as_sym(v)
        return Quantity(s, u.Unit(unit), dtype=object)

    def assume(self, cond):
        """cond: a python bool (possibly obtained by a forking comparison)"""
        if not cond:
            raise self.c.PathAbort("assumption")

    def sqrt(self, x):
        return self.c.s_sqrt(self.c.as_sym(x))

    def exp(self, x):
        return self.c.s_uf("exp", self.c.as_sym(x))

    def log10(self, x):
        return self.c.s_uf("log10", self.c.as_sym(x))

    def log(self, x):
        return self.c.s_uf("log", self.c.as_sym(x))

    def max(self, xs):
        return self.c.s_max(xs)

    def min(self, xs):
        return self.c.s_min(xs)

    def floor(self, x):
        return self.c.s_floor(self.c.as_sym(x))

    def div(self, a, b):
        return self.c.s_div(self.c.as_sym(a), self.c.as_sym(b))

    def eq(self, label, got, want, rtol=None, scale=None):
        c = self.c
        rt = rtol or RTOL_SYM
        self.nchecks += 1
        self.labels.add(label)
        try:
            g, w, f = align(got, want, label)
        except CheckFailed as ex:
            self.violation(label, str(ex), None)
            return
        items, vals = [], []
        for k, (a, b) in enumerate(zip(g, w)):
            a, b = c.as_sym(a), c.as_sym(b)
            if a is None or b is None:
                self.violation(label, "non numeric value", None)
                return
            if f != 1.0:
                a = a * f
            vals.append(a)
            if a.p is None or b.p is None:
                same = (a.isnan() and b.isnan()) or (a.p is None and b.p is None and a.sp == b.sp)
                if not same:
                    self.violation(label, "[%d] got %r expected %r" % (k, a, b), None)
                    self.rec.append((label, vals))
                    return
                continue
            d = c.p_add(a.p, b.p, -1.0)
            items.append((k, d, b.p))
        self.rec.append((label, vals))
        if self.guided:
            return
        self.e.stats.assertions += 1
        nz = [(k, d, b) for k, d, b in items if d]

        def formula(rt):
            def ex(enc):
                z3 = c.z3
                ors = []
                for k, d, b in nz:
                    mag = max([abs(v) for v in b.values()] + [abs(v) for v in d.values()])
                    sc = 1.0 / c.pow2(mag) if mag else 1.0
                    lo, hi = c.p_interval(b) if b else (0.0, 0.0)
                    if not b:
                        s = scale if scale else 0.0
                        m = max(abs(v) for v in d.values())
                        t = c.p_const(rt * s) if s else {}
                    elif lo >= 0:
                        t = c.p_scale(b, rt)
                    elif hi <= 0:
                        t = c.p_scale(b, -rt)
                    else:
                        m = c.p_mag(b)
                        t = c.p_const(rt * m) if m < c.INF else c.p_const(rt * mag)
                    if scale and b:
                        t = c.p_add(t, c.p_const(rt * scale))
                    ors.append(enc.poly(c.p_add(d, t, -1.0), sc) > 0)
                    ors.append(enc.poly(c.p_add(d, t, 1.0), sc) < 0)
                return z3.Or(ors) if ors else z3.BoolVal(False)
            return ex

        self._discharge(label, nz, formula, rt)

    def _discharge(self, label, nz, formula, rt):
        c, e = self.c, self.e
        atoms = set()
        for _, d, b in nz:
            e.atoms_of(d, atoms)
            e.atoms_of(b, atoms)
        lits = e.relevant([], seed=atoms)
        e.stats.obligations += 1
        r = e.solve(lits, linear=True, extra=formula(rt))
        if r == "unsat":
            e.stats.obl_unsat += 1
            return
        for big in (1e-2, rt):
            r, env = e.solve(e.pc, linear=False, extra=formula(big), model=True)
            if r == "sat":
                self.candidates.append(dict(label=label, env=env, msg="solver counterexample (rel. difference > %g)" % big))
                return
        if r == "unsat":
            e.stats.obl_unsat += 1
            return
        # out of time: once more with the constraints that matter only, other seeds and more time
        for k, lin in enumerate((True, False, False)):
            r = e.solve(lits, linear=lin, extra=formula(rt), timeout=3 * e.timeout, seed=k + 1)
            if r == "unsat":
                e.stats.obl_unsat += 1
                return
        # unknown: one more try with a random concrete search over the path (only to find a
        # counterexample; it never discharges the obligation)
        self.candidates.append(dict(label=label, env=None, msg="solver answered %s" % r, unknown=True))

    def violation(self, label, msg, _):
        if self.guided:
            self.rec.append((label + "!", []))
            return
        e = self.e
        e.stats.obligations += 1
        r, env = e.solve(e.pc, linear=False, model=True)
        if r == "unsat":
            e.stats.obl_unsat += 1
            return
        self.candidates.append(dict(label=label, env=env, msg=msg, unknown=(r != "sat")))

    def true(self, label, cond, msg=""):
        self.nchecks += 1
        self.labels.add(label)
        c = bool(cond)
        self.rec.append((label, [self.c.as_sym(float(c))]))
        if self.guided:
            return
        self.e.stats.assertions += 1
        if not c:
            self.violation(label, msg, None)
        else:
            self.e.stats.obligations += 1
            self.e.stats.obl_unsat += 1

    def reached(self, label):
        self.nchecks += 1
        self.labels.add(label)
        self.rec.append((label, [self.c.as_sym(1.0)]))


class Guided:
    """Drives the symbolic run along the path of one concrete input."""
    active = True

    def __init__(self, env, rng):
        self.env = env
        self.rng = rng

    def _env(self):
        from . import core
        for a in core.T.atoms:
            if a.kind == "var" and a.name not in self.env:
                lo = a.lo if a.lo > -1e300 else -10.0
                hi = a.hi if a.hi < 1e300 else lo + 10.0
                if a.isint:
                    self.env[a.name] = self.rng.randint(int(lo), int(hi))
                else:
                    self.env[a.name] = self.rng.uniform(lo, hi)
        return self.env

    def decide(self, rel, p):
        from . import core
        q = core.Engine.quick(None, rel, p)
        if q is not None:
            return q
        v = core.eval_poly(p, self._env())
        return {">": v > 0, ">=": v >= 0, "==": v == 0}[rel]

    def assume(self, rel, p):
        from . import core
        if not self.decide(rel, p):
            raise core.PathAbort("assumption")

    def concretise_int(self, x, trunc):
        from . import core
        v = core.eval_poly(x.p, self._env())
        return int(v) if trunc else int(round(v))
