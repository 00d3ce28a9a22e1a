"""rebin() when the source is not finer than the target: linear interpolation, 0 outside."""
from checks.lib import *


def R(c, x, xp, fp, un="um", fu="ct/s"):
    return mod("utils.exolib").rebin(x, xp, fp)


def dense_target(c):
    """concrete grids, arbitrary samples, target partly outside the source"""
    x = c.choice("grid", [list(np.linspace(0.9, 3.3, 13)), list(np.linspace(1.0, 3.0, 5)), [0.95, 1.5, 3.2]])
    xp = [1.0, 1.6, 2.2, 3.0] if not c.thorough else [1.0, 1.3, 1.9, 2.0, 2.2, 2.8, 3.0]
    if len(x) == 3:
        xp = [1.0, 2.6, 3.0]
    fp = c.reals("f", len(xp), -10, 10)
    nx, nf = R(c, np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("grid", nx, np.array(x) * u.um)
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def descending(c):
    """a grid given from the longest to the shortest wavelength: values in the order of the grid"""
    x = c.choice("grid", [[3.2, 2.5, 1.1, 0.95], [2.1, 1.65], [1.7, 1.5]])
    xp = [1.0, 1.6, 2.2, 3.0]
    fp = c.reals("f", 4, -10, 10)
    nx, nf = R(c, np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("grid", nx, np.array(x) * u.um)
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def uneven(c):
    """a source that is finer than the grid only in part is interpolated"""
    x = [1.0, 1.5, 2.0, 2.5]
    xp = c.choice("xp", [[0.95, 1.0, 1.1, 1.2, 1.3, 2.0, 2.1, 2.2, 2.3, 2.4, 2.6], [0.92, 1.6, 1.7, 1.8, 1.9, 2.0, 2.1, 2.2, 2.3, 2.55],
                         [0.95, 1.2, 1.3, 1.4, 1.6, 1.7, 1.8, 2.0, 2.1, 2.7]])
    fp = c.reals("f", len(xp), -10, 10)
    nx, nf = R(c, np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def any_order(c):
    """source samples in any order"""
    base = [1.0, 1.6, 2.2, 3.0]
    o = c.choice("perm", [[3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]])
    fp = c.reals("f", 4, -10, 10)
    x = list(np.linspace(0.95, 3.2, 10))
    nx, nf = R(c, np.array(x) * u.um, np.array([base[k] for k in o]) * u.um, c.q([fp[k] for k in o], "ct/s"))
    c.eq("values", nf, c.q([lin(w, base, fp) for w in x], "ct/s"), scale=10.0)


def source_sym(c):
    """symbolic source positions"""
    n = 3 if not c.thorough else 4
    xp = [c.real("s", 0.8, 2.0)]
    for k in range(n - 1):
        xp.append(xp[-1] + c.real("d%d" % k, 0.6, 1.5))
    fp = c.reals("f", n, 0.1, 10)
    x = [1.0, 1.5, 2.0, 2.5]
    nx, nf = R(c, np.array(x) * u.um, c.q(xp, "um"), c.q(fp, "ct/s"))
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def target_sym(c):
    xp = [1.0, 1.6, 2.2, 3.0]
    fp = c.reals("f", 4, 0.1, 10)
    a = c.real("a", 0.95, 2.6)
    x = [a, a + c.real("w", 0.01, 0.55)]
    nx, nf = R(c, c.q(x, "um"), np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def sparse_source(c):
    """samples far from the grid still bracket it"""
    xp = c.choice("xp", [[0.4, 1.2, 1.8, 4.0], [0.4, 4.0], [0.4, 0.5, 1.5], [2.5, 3.0, 4.0], [1.05, 5.0]])
    fp = c.reals("f", len(xp), -10, 10)
    x = c.choice("x", [[1.0, 1.25, 1.5, 2.0], [1.0, 1.1]])
    nx, nf = R(c, np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("values", nf, c.q([lin(w, xp, fp) for w in x], "ct/s"), scale=10.0)


def duplicates(c):
    """repeated source abscissae do not break the result; NaN abscissae are dropped"""
    f = c.reals("f", 4, 0.1, 10)
    x = [1.0, 1.5, 2.0, 2.5, 3.0]
    xs = [1.0, 1.7, 2.4, 2.6]
    kind = c.choice("kind", ["dup", "triple", "quad", "two", "nan", "nan_first", "nans", "both"])
    xp, fp = list(xs), list(f)
    for k, n in {"dup": [(1, 1)], "triple": [(2, 2)], "quad": [(1, 3)], "two": [(2, 1), (1, 1)], "nan_first": [], "nan": [], "nans": [], "both": [(1, 1)]}[kind]:
        for _ in range(n):
            xp.insert(k, xs[k])
            fp.insert(k, f[k])
    if kind == "nan_first":
        xp.insert(0, float("nan"))
        fp.insert(0, 7.0)
    if kind == "nans":
        for k in (0, 2, 6):
            xp.insert(k, float("nan"))
            fp.insert(k, 7.0)
    if kind in ("nan", "both"):
        xp.insert(3, float("nan"))
        fp.insert(3, 5.0)
    nx, nf = R(c, np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("values", nf, c.q([lin(w, xs, f) for w in x], "ct/s"))


def same_grid(c):
    """rebinning onto the own grid changes nothing; units must agree"""
    x = [1.0, 1.4, 2.2, 2.9]
    f = c.reals("f", 4, -10, 10)
    nx, nf = R(c, np.array(x) * u.um, np.array(x) * u.um, c.q(f, "W/m2"))
    c.eq("identity", nf, c.q(f, "W/m2"), scale=10.0)
    try:
        R(c, np.array(x) * u.nm, np.array(x) * u.um, c.q(f, "W/m2"))
        c.fail("unit_mismatch_rejected", "no exception")
    except (ValueError, TypeError):
        c.true("unit_mismatch_rejected", True)


HARNESSES = [
    H(dense_target, "3 target grids (3-13 points), 3-4 source samples (7 thorough), any sample values in [-10,10]"),
    H(descending, "3 descending target grids (2-4 points), 4 samples of any value"),
    H(uneven, "4 target points, 3 unevenly sampled sources of any value"),
    H(any_order, "4 source samples in 3 orders"),
    H(source_sym, "3 (4) source positions anywhere, 4 target points", max_paths=6000),
    H(sparse_source, "2..4 samples of any value, partly or all far outside the grid"),
    H(target_sym, "2 target points anywhere in [0.95,3.15], 4 source samples"),
    H(duplicates, "4 samples with repeated and NaN abscissae"),
    H(same_grid, "4 samples"),
]
