"""rebin() when the source sampling is finer than the target: per-bin mean."""
from checks.lib import *


def values(c):
    """concrete grids, arbitrary samples (including those outside the target range)"""
    rebin = mod("utils.exolib").rebin
    x = c.choice("grid", [[1.0, 2.0, 3.5], [0.7, 1.3], [4.0, 5.5, 7.0, 9.0]])
    n = 23 if not c.thorough else 61
    xp = list(np.linspace(0.31 * x[0], 1.73 * x[-1], n if len(x) < 4 else n + 10))
    fp = c.reals("f", len(xp), -10, 10)
    nx, nf = rebin(np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("grid", nx, np.array(x) * u.um)
    c.eq("binned", nf, c.q(bin_mean(x, xp, fp), "ct/s"), scale=10.0)


def gridsym(c):
    """symbolic source grid"""
    rebin = mod("utils.exolib").rebin
    x = [1.0, 2.0, 3.5]
    n = 3 if not c.thorough else 4
    start = c.real("s", 0.95, 2.6)
    xp = [start]
    for k in range(n - 1):
        xp.append(xp[-1] + c.real("d%d" % k, 0.05, 0.95))
    e = bin_edges(x)
    for p in xp:
        for q in e:
            c.assume(p != q)
    fp = c.reals("f", n, 0.1, 10)
    nx, nf = rebin(np.array(x) * u.um, c.q(xp, "um"), c.q(fp, "ct/s"))
    c.eq("binned", nf, c.q(bin_mean(x, xp, fp), "ct/s"))


def targetsym(c):
    """symbolic target grid"""
    rebin = mod("utils.exolib").rebin
    xp = [0.8, 1.2, 1.55, 2.05, 2.5, 2.9]
    a = c.real("x0", 0.9, 1.5)
    x = [a, a + c.real("w", 0.55, 1.5)]
    e = bin_edges(x)
    for p in xp:
        for q in e:
            c.assume(p != q)
        c.assume(p != 0.9 * x[0])
        c.assume(p != 1.1 * x[-1])
    fp = c.reals("f", len(xp), 0.1, 10)
    nx, nf = rebin(c.q(x, "um"), np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("binned", nf, c.q(bin_mean(x, xp, fp), "ct/s"))


def signal_zero(c):
    """Signal.spectral_rebin: mean per bin, 0 where nothing falls; flux conserved"""
    S = mod("models.signal")
    cls = c.choice("cls", [S.Signal, S.Sed, S.Radiance, S.CountsPerSeconds])
    x = [1.0, 2.0, 3.5, 6.0]
    xp = list(np.linspace(1.1, 4.2, 14))
    fp = c.reals("f", len(xp), 0.1, 10)
    s = cls(np.array(xp) * u.um, c.arr(fp))
    un = s.data.unit
    s.spectral_rebin(np.array(x) * u.um)
    o = [0.0 if isinstance(v, float) and v != v else v for v in bin_mean(x, xp, fp)]
    c.eq("grid", s.wl_grid, np.array(x) * u.um)
    c.eq("data", s.data, c.q(o, un))


def descending(c):
    """a grid given from the longest to the shortest wavelength: values in the order of the grid"""
    rebin = mod("utils.exolib").rebin
    x = c.choice("grid", [[3.5, 2.0, 1.0], [1.3, 0.7], [9.0, 7.0, 5.5, 4.0]])
    xp = list(np.linspace(0.31 * x[-1], 1.73 * x[0], 33))
    fp = c.reals("f", len(xp), -10, 10)
    nx, nf = rebin(np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("grid", nx, np.array(x) * u.um)
    c.eq("binned", nf, c.q(bin_mean(x[::-1], xp, fp)[::-1], "ct/s"), scale=10.0)


def source_order(c):
    """samples of the source in any order"""
    rebin = mod("utils.exolib").rebin
    x = [1.0, 2.0, 3.5]
    xp = list(np.linspace(0.6, 4.1, 12))
    o = c.choice("perm", [list(range(12))[::-1], [5, 0, 11, 3, 8, 1, 10, 2, 7, 4, 9, 6]])
    fp = c.reals("f", len(xp), -10, 10)
    nx, nf = rebin(np.array(x) * u.um, np.array([xp[k] for k in o]) * u.um, c.q([fp[k] for k in o], "ct/s"))
    c.eq("binned", nf, c.q(bin_mean(x, xp, fp), "ct/s"), scale=10.0)


def repeated(c):
    """a sample given several times counts once, one at an undefined wavelength not at all"""
    rebin = mod("utils.exolib").rebin
    x = [1.0, 2.0, 3.5]
    xs = list(np.linspace(0.6, 4.1, 12))
    f = c.reals("f", 12, -10, 10)
    n = c.choice("n", [2, 3])
    k = c.choice("k", [1, 6, 10])
    xp, fp = list(xs), list(f)
    xp[k:k + 1], fp[k:k + 1] = [xs[k]] * n, [f[k]] * n
    if c.flag("nan"):
        xp.insert(4, float("nan"))
        fp.insert(4, 3.0)
    nx, nf = rebin(np.array(x) * u.um, np.array(xp) * u.um, c.q(fp, "ct/s"))
    c.eq("binned", nf, c.q(bin_mean(x, xs, f), "ct/s"), scale=10.0)


def target_repeated(c):
    """a point of the target grid given several times, or undefined, is left out of the result"""
    rebin = mod("utils.exolib").rebin
    x = [1.0, 2.0, 3.5]
    xs = list(np.linspace(0.6, 4.1, 21))
    f = c.reals("f", 21, -10, 10)
    n, k = c.choice("n", [1, 2, 3]), c.choice("k", [0, 1, 2])
    g = x[:k] + [x[k]] * n + x[k + 1:]
    if c.flag("nan"):
        g.insert(1, float("nan"))
    d = c.flag("descending") and not c.flag("nan")
    nx, nf = rebin(np.array(g[::-1] if d else g) * u.um, np.array(xs) * u.um, c.q(f, "ct/s"))
    c.eq("grid", nx, np.array(x[::-1] if d else x) * u.um)
    o = bin_mean(x, xs, f)
    c.eq("binned", nf, c.q(o[::-1] if d else o, "ct/s"), scale=10.0)


HARNESSES = [
    H(target_repeated, "21 samples of any value, one of 3 target points repeated up to 3 times, with and without one at NaN"),
    H(repeated, "12 samples of any value, one of them repeated, with and without one at NaN"),
    H(descending, "3 descending target grids (2-4 points), 33 samples of any value"),
    H(source_order, "12 samples of any value in 2 other orders"),
    H(values, "3 concrete target grids, 23-33 source samples (quick), all sample values in [-10,10]"),
    H(gridsym, "3 (quick) / 4 source points anywhere in [0.95,4.5] with spacing < 0.95, 3 target points", max_paths=6000),
    H(targetsym, "2 target points at arbitrary position and spacing, 6 source points"),
    H(signal_zero, "4 target points, 14 samples, 4 signal classes, arbitrary positive samples"),
]
