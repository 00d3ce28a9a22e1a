"""Signal: units of grids and data, dimension checks, resampling in place."""
from checks.lib import *

LEN = {"um": 1.0, "nm": 1e-3, "mm": 1e3, "m": 1e6}


def S():
    return mod("models.signal")


def wavelength_units(c):
    """any length unit is converted to micron; a bare array is taken as micron; columns keep their unit"""
    wl = [0.5, 1.25, 2.0]
    un = c.choice("unit", ["um", "nm", "mm", "m", "bare", "column"])
    v = c.reals("v", 3, -5, 5)
    if un == "bare":
        g = np.array(wl)
    elif un == "column":
        g = Column(np.array([w * 1e3 for w in wl]), unit="nm")
    else:
        g = np.array([w / LEN[un] for w in wl]) * u.Unit(un)
    s = S().Signal(g, c.arr(v))
    c.eq("wl", s.wl_grid, np.array(wl) * u.um)
    c.true("wl_unit", s.wl_grid.unit == u.um)
    c.eq("data", s.data, c.q(v, ""))


def data_units(c):
    """each kind of signal converts its data to its own unit"""
    v = c.reals("v", 3, 0, 5)
    W = u.W / u.m**2
    kind, un, f, out = c.choice("k", [
        ("Sed", W / u.um, 1.0, W / u.um), ("Sed", W / u.nm, 1e3, W / u.um), ("Sed", u.erg / u.s / u.cm**2 / u.AA, 10.0, W / u.um),
        ("Radiance", W / u.um / u.sr, 1.0, W / u.um / u.sr), ("Radiance", u.mW / u.m**2 / u.nm / u.sr, 1.0, W / u.um / u.sr),
        ("CountsPerSeconds", u.ct / u.s, 1.0, u.ct / u.s), ("CountsPerSeconds", u.ct / u.min, 1 / 60., u.ct / u.s),
        ("Signal", u.percent, 0.01, u.Unit("")), ("Signal", u.m / u.mm, 1000.0, u.Unit(""))])
    s = getattr(S(), kind)(np.array([1.0, 2.0, 3.0]) * u.um, c.q(v, un))
    c.true("unit", s.data.unit == out)
    c.eq("data", s.data.value, c.arr([x * f for x in v]))
    if c.flag("bare"):
        b = getattr(S(), kind)(np.array([1.0, 2.0, 3.0]) * u.um, c.arr(v))
        c.true("bare_unit", b.data.unit == out)
        c.eq("bare_data", b.data.value, c.arr(v))


def incompatible(c):
    v = c.reals("v", 2, 0, 5)
    wl = np.array([1.0, 2.0]) * u.um
    W = u.W / u.m**2
    k = c.int("case", 0, 4)
    E = u.UnitConversionError
    if k == 0:
        c.true("rejected", raises(E, S().Signal, np.array([1.0, 2.0]) * u.s, c.arr(v)))
    elif k == 1:
        c.true("rejected", raises(E, S().Sed, wl, c.q(v, W)))
    elif k == 2:
        c.true("rejected", raises(E, S().Radiance, wl, c.q(v, W / u.um)))
    elif k == 3:
        c.true("rejected", raises(E, S().CountsPerSeconds, wl, c.q(v, "ct")))
    else:
        c.true("rejected", raises(E, S().CustomSignal, wl, c.q(v, "s"), u.ct / u.um / u.s))


def sizes(c):
    """the wavelength grid has one axis, the data as many samples, and the time axis matches"""
    n, m = c.int("n", 1, 3), c.int("m", 1, 3)
    v = c.reals("v", m, 0, 5)
    mk = lambda: S().Signal(np.linspace(1, 2, n) * u.um, c.arr(v))  # noqa: E731
    if n == m:
        c.eq("data", mk().data.value, c.arr(v))
    else:
        c.true("mismatch_rejected", raises(ValueError, mk))
    t = c.int("t", 1, 2)
    k = c.int("k", 1, 2)
    two = lambda: S().Signal(np.linspace(1, 2, n) * u.um, np.ones((m, k)), np.arange(t) * u.hr)  # noqa: E731
    if n == m and t == k:
        c.true("shape", two().data.shape == (n, k))
    else:
        c.true("time_mismatch_rejected", raises(ValueError, two))
    c.true("grid_axes", raises(ValueError, S().Signal, np.ones((n, 2)) * u.um, c.arr(v)))


def rebin_in_place(c):
    """after resampling the signal lives on the new grid, keeps its unit and has 0 where nothing is known"""
    xp = [1.0, 1.1, 1.2, 1.3, 1.4]
    v = c.reals("v", 5, 0, 5)
    un = c.choice("un", ["ct/s", ""])
    s = S().CustomSignal(np.array(xp) * u.um, c.q(v, un), un)
    x = c.choice("x", [[1.06, 1.26, 1.46, 1.66, 1.86], [1.12, 1.16, 1.22], [0.95, 1.05, 1.33, 1.43]])
    want = resample(x, xp, v)
    new = np.array(x) * u.um
    s.spectral_rebin(new)
    c.eq("grid", s.wl_grid, new)
    c.eq("data", s.data, c.q(want, un))


def table_column(c):
    """data given as a table column with a unit"""
    v = c.reals("v", 2, 0, 5)
    s = S().Signal(np.array([1.0, 2.0]) * u.um, c.arr(v) * u.percent)
    c.eq("data", s.data.value, c.arr([0.01 * x for x in v]))
    s = S().CustomSignal(Column(np.array([1000.0, 2000.0]), unit="nm"), c.q(v, "mm"), u.um)
    c.eq("wl", s.wl_grid.value, [1.0, 2.0])
    c.eq("data2", s.data.value, c.arr([1e3 * x for x in v]))


HARNESSES = [
    H(wavelength_units, "3 samples, six ways of giving the grid"),
    H(data_units, "3 samples of any value, nine kind/unit pairs"),
    H(incompatible, "five incompatible unit pairs"),
    H(sizes, "1..3 wavelengths x 1..3 samples x 1..2 times"),
    H(rebin_in_place, "5 samples of any value, three target grids"),
    H(table_column, "2 samples"),
]
