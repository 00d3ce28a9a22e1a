"""Stellar spectrum at the telescope: black body, model library, custom file."""
import math
import os
import tempfile

from checks.lib import *

LSUN = float(u.L_sun.to("W"))
RSUN, PC = float(u.R_sun.to("m")), float(u.pc.to("m"))


def stub_fits(c, T, flux_unit, flux, order=None):
    """model file content"""
    wl, wu, fl = T

    class Data:
        names = ["Wavelength", "Flux"]

        def field(self, k):
            first = k == 0 or str(k).lower() == "wavelength"
            return np.array(wl) if first else c.arr(flux)

        __getitem__ = field
    opened = []
    hdus = [SimpleNamespace(header={}, data=None), SimpleNamespace(header=dict(TUNIT1=wu, TUNIT2=flux_unit, PHXLUM=1.0e26), data=Data())]
    fits_files(c, lambda name: opened.append(name) or hdus)
    return opened


@contextlib.contextmanager
def library(names):
    with tempfile.TemporaryDirectory() as d:
        for n in names:
            open(os.path.join(d, n), "w").close()
        yield d


def fname(T, g, z):
    return "lte%s-%.1f-%.1fa+0.0.BT-Settl.spec.fits.gz" % (T, g, z)


MODELS = [("030.0", 4.5, 0.0), ("030.0", 5.0, 0.0), ("032.0", 4.5, 0.0), ("032.0", 5.0, 0.5), ("036.0", 4.0, 0.0)]


def make(path, T, g, z, R, D, **k):
    return mod("models.source").Star(path, D, T, g, z, R, **k)


def nearest(c):
    """the model nearest in temperature (hundreds of kelvin) plus gravity plus metallicity; none outside the range"""
    T, g = c.real("T", 2900, 3720), c.real("g", 3.5, 5.5)
    z = c.choice("z", [0.0, 0.4])
    t = c.div(T, 100.0)
    rt = c.floor(t + 0.5)
    c.assume(abs(t - rt) < 0.499999 - c.slack)
    stub_fits(c, ([1.0, 2.0, 3.0], "um", None), "W m-2 um-1", [1.0, 1.0, 1.0])
    names = [fname(*m) for m in MODELS]
    k = c.choice("order", [1, -1])
    R, D = 1.0 * u.R_sun, 10.0 * u.pc
    with library(names[::k] + ["readme.txt"]) as d:
        import glob
        real, ls = glob.glob, os.listdir
        # any order of the directory listing
        c.lib("glob", "glob", lambda *a, **b: sorted(real(*a, **b), reverse=k < 0))
        c.lib("os", "listdir", lambda *a: sorted(ls(*a), reverse=k < 0))
        tq = c.scalar_q(T, "K")
        if rt < 29.5 or rt > 36.5:
            c.true("refused", raises(ValueError, make, d, tq, g, z, R, D))
            return
        s = make(d, tq, g, z, R, D)
    dist = [abs(float(m[0]) - rt) + abs(m[1] - g) + abs(m[2] - z) for m in MODELS]
    i = names.index(os.path.basename(s.filename))
    c.true("nearest", dist[i] <= c.min(dist) + 1e-9)
    c.true("model_name", s.model == names[i])


def model_flux(c):
    """model file: surface flux scaled by (R/D)^2, luminosity 4 pi R^2 times the integral; duplicates count once"""
    wu, f = c.choice("wu", [("um", 1.0), ("Angstrom", 1e4), ("nm", 1e3)])
    fu = c.choice("fu", ["W m-2 um-1", "erg s-1 cm-2 Angstrom-1"])
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    w = c.choice("w", [[1.0, 1.5, 2.0, 3.0, 4.0], [1.0, 1.5, 1.5, 3.0, 4.0], [0.05, 0.0501, 2.0, 2.0001, 40.0]])
    F = c.reals("f", 5, 0.1, 5.0)
    if w[1] == w[2]:
        F[2] = F[1]
    opened = stub_fits(c, ([x * f for x in w], wu, None), fu, F)
    ru, du = c.choice("ru", [("R_sun", RSUN), ("km", 1e3)]), c.choice("du", [("pc", PC), ("AU", float(u.AU.to("m")))])
    with library([fname(*MODELS[0])]) as p:
        # the model found, or the one asked for
        k = {"phoenix_model_filename": "mine.spec.fits.gz"} if c.flag("by_name") else {}
        s = make(p, 3000.0 * u.K, 4.5, 0.0, c.scalar_q(r * RSUN / ru[1], ru[0]), c.scalar_q(d * PC / du[1], du[0]), **k)
        want = os.path.join(p, "mine.spec.fits.gz" if k else fname(*MODELS[0]))
        c.true("file", len(opened) > 0 and all(os.path.normpath(x) == want for x in opened))
        c.true("model_name", s.model == os.path.basename(want))
    conv = float(u.Unit(fu).to("W m-2 um-1"))
    got = {}
    gw = s.sed.wl_grid.to("um").value
    for k in range(len(gw)):
        got[round(float(gw[k]), 6)] = s.sed.data.reshape(-1)[k]
    c.true("ascending", len(got) == len(gw))
    dil = c.div(r * r * (RSUN / PC) ** 2, d * d)
    for x, v in zip(w, F):
        if x in got:
            c.eq("flux", u.Quantity(got[x]), c.scalar_q(v * conv * dil, "W m-2 um-1"))
        else:
            c.true("only_last_dropped", x == w[-1])
    ks = [k for k in range(5) if k == 0 or w[k] != w[k - 1]]
    ks = [k for k in ks if w[k] in got]
    L = trapz([F[k] * conv for k in ks], [w[k] for k in ks]) * (4 * np.pi * RSUN ** 2) * (r * r)
    c.eq("luminosity", u.Quantity(s.luminosity).to("W"), c.scalar_q(L, "W"))


def blackbody(c):
    """Planck star: pi (R/D)^2 B(T), luminosity in the band"""
    T = c.choice("T", [2600.0, 5800.0, 9000.0])
    lo, hi, un = c.choice("band", [(0.5, 8.0, "um"), (900.0, 4000.0, "nm")])
    f = float(u.Unit(un).to("um"))
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    tq = T * u.K
    s = make(".", tq, 4.5, 0.0, c.scalar_q(r, "R_sun"), c.scalar_q(d, "pc"), use_planck_spectrum=True, wl_min=lo * u.Unit(un), wl_max=hi * u.Unit(un))
    gw = np.array([float(x) for x in s.sed.wl_grid.to("um").value])
    c.true("band", abs(gw[0] - lo * f) < 1e-9 and abs(gw[-1] - hi * f) < 1e-9 and bool(np.all(np.diff(gw) > 0)))
    dil = c.div(r * r * (np.pi * (RSUN / PC) ** 2), d * d)
    data = s.sed.data.reshape(-1)
    n = len(gw)
    c.true("fine", n >= 1000)
    ks = [0, 1, n // 7, n // 3, n // 2, n - 2, n - 1]
    c.eq("flux", [data[k] for k in ks], c.arr([dil * planck(gw[k], T) for k in ks]) * u.Unit("W m-2 um-1"))
    L = float(np.trapz([planck(x, T) for x in gw], gw)) * 4 * np.pi ** 2 * RSUN ** 2
    c.eq("luminosity", u.Quantity(s.luminosity).to("W"), c.scalar_q(L * (r * r), "W"))
    c.true("model", s.model == "Planck")


def custom(c):
    """custom file: surface flux scaled by (R/D)^2, whatever the row order and units"""
    order = c.choice("order", [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)])
    wu, fu = c.choice("wu", ["um", "nm"]), c.choice("fu", ["W m-2 um-1", "erg s-1 cm-2 nm-1"])
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    w = [1.0, 1.5, 2.5, 4.0]
    F = c.reals("f", 4, 0.1, 5.0)
    T = Table()
    T["Wavelength"] = Column(np.array([w[k] * u.um.to(wu) for k in order]), unit=wu)
    T["Sed"] = Column(c.arr([F[k] for k in order]), unit=fu)
    table_files(c, lambda *a, **k: T)
    ru, du = c.choice("ru", [("R_sun", RSUN), ("km", 1e3)]), c.choice("du", [("pc", PC), ("AU", float(u.AU.to("m")))])
    s = mod("models.source").CustomSed("my%s.csv" % c.uid, c.scalar_q(r * RSUN / ru[1], ru[0]), c.scalar_q(d * PC / du[1], du[0]))
    conv = float(u.Unit(fu).to("W m-2 um-1"))
    dil = c.div(r * r * ((RSUN / PC) ** 2), d * d)
    gw = [float(x) for x in s.sed.wl_grid.to("um").value]
    data = s.sed.data.reshape(-1)
    c.true("all_samples", sorted(round(x, 9) for x in gw) == w)
    for x, v in zip(gw, data):
        c.eq("flux", u.Quantity(v), c.scalar_q(F[[abs(a - x) < 1e-6 for a in w].index(True)] * conv * dil, "W m-2 um-1"))
    L = trapz([x * conv for x in F], w) * (4 * np.pi * RSUN ** 2) * (r * r)
    c.eq("luminosity", u.Quantity(s.luminosity).to("W"), c.scalar_q(L, "W"))
    c.true("model", s.model == "Custom")


def gravity(c):
    """log g of a star from its mass and radius in any unit"""
    m, r = c.real("m", 0.1, 3), c.real("r", 0.1, 3)
    alt = c.flag("alt")
    mq = c.scalar_q(m * u.M_sun.to("kg"), "kg") if alt else c.scalar_q(m, "M_sun")
    rq = c.scalar_q(r * RSUN / 1e3, "km") if alt else c.scalar_q(r, "R_sun")
    g = mod("models.target").Target().calc_logg(mq, rq)
    from astropy import constants as cc
    k = float(cc.G.si.value * u.M_sun.to("kg") / RSUN ** 2 * 100.0)
    c.eq("logg", g, c.log10(c.div(m * k, r * r)))


def unsupported(c):
    """no models: refused"""
    with library(["a.txt"]) as d:
        c.true("no_models", raises(OSError, make, d, 3000.0 * u.K, 4.5, 0.0, 1.0 * u.R_sun, 1.0 * u.pc))


HARNESSES = [
    H(nearest, "any temperature and gravity, two metallicities, five models listed in two orders"),
    H(model_flux, "any 5-sample spectrum, radius and distance; 3 wavelength and 2 flux units, duplicated wavelengths"),
    H(blackbody, "any radius and distance, three temperatures, two bands (Planck function for any temperature: C07)"),
    H(custom, "any 4-sample spectrum, radius and distance; three row orders, units"),
    H(gravity, "any mass and radius in two unit systems"),
    H(unsupported, "directory without models"),
]
