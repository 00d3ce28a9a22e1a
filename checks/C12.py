"""Spectrometer: star flux and signal in each spectral bin."""
from checks.lib import *

N = 9
SED = SED0 = [0.7, 0.95, 1.02, 1.1, 1.18, 1.27, 1.4, 1.55, 1.7, 1.9, 2.2, 2.6]
SED_EDGES = [0.7, 0.95, 1.0, 1.1, 1.18, 1.25, 1.4, 1.5625, 1.7, 1.9, 1.95, 2.6]  # samples at the borders of the bins and of the band
WLX = ((0.9, 0.0), (2.1, 432.0))
QWL = [0.6, 1.2, 2.0, 2.9]


def spectro(c, **k):
    stub_psf(c, np.array([[0.1, 0.2], [0.5, 0.05]]))
    k.setdefault("wl_max", V(1.95 * u.um))
    return spec_desc(c, WLX, **k)


def mask_trapz(y, x, lo, hi):
    return trapz([a if lo <= w < hi else 0.0 for a, w in zip(y, x)], x)


def signal(c):
    """any SED, efficiency and collecting area; the counts of a bin integrate the SED samples inside it"""
    set_R(c, N)
    un, fac, SED = c.choice("unit", [("um", 1.0, SED0), ("nm", 1e3, SED0), ("um", 1.0, SED_EDGES)])
    q, f = c.reals("q", 4, 0, 1), c.reals("f", len(SED), 0, 10)
    t = c.real("t", 0, 1)
    A = c.real("A", 0.01, 10)
    d = spectro(c, optics={"opticalElement": elem("M", transmission=t)})
    d["detector"]["qe"] = qe_table(c, "Spec", QWL, q)
    force = c.flag("force")
    d["wl_min"], d["wl_max"] = V(1.0 * u.um), V(1.95 * u.um)
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c, force, A))
    sp.build()
    out = sp.propagate_target(star(c, np.array(SED) * fac * u.Unit(un) if un == "um" else (np.array(SED) * fac * u.nm).to(u.um), f))
    grid = logspace(0.5, 3.0, N)
    gt = [t * (1.0 if not force or 1.0 <= w <= 1.95 else 0.0) for w in grid]
    inb = [1.0 if not force or 1.0 <= w <= 1.95 else 0.0 for w in SED]
    Q, T = resample(SED, QWL, q), resample(SED, grid, gt)
    dens = [A * fk * a * b * o * w * PH for fk, a, b, w, o in zip(f, Q, T, SED, inb)]
    e = fixed_bins(1.0, 1.95, 4)
    c.eq("wavelengths", sp.table["Wavelength"], [(a + b) / 2 for a, b in zip(e, e[1:])] * u.um)
    c.eq("flux", out["starFlux"], c.q([mask_trapz([x * y for x, y in zip(f, inb)], SED, a, b) for a, b in zip(e, e[1:])], "W/m2"), scale=1.0)
    sig = c.q([mask_trapz(dens, SED, a, b) for a, b in zip(e, e[1:])], "ct/s")
    c.eq("signal", out["starSignal"], sig, scale=1e17)
    c.eq("aperture", out["star_signal_inAperture"], sig, scale=1e17)


def additive(c):
    """the signal is linear in the SED and never negative"""
    set_R(c, N)
    d = spectro(c)
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c, False, 1.0))
    sp.build()
    f, g = c.reals("f", len(SED), 0, 10), c.reals("g", len(SED), 0, 10)
    k = c.real("k", 0, 10)
    a = sp.propagate_target(star(c, SED, f))
    b = sp.propagate_target(star(c, SED, g))
    s = sp.propagate_target(star(c, SED, [x + k * y for x, y in zip(f, g)]))
    for col in ("starSignal", "starFlux"):
        c.eq(col, s[col], a[col] + b[col] * c.scalar_q(k, ""), scale=1e17 if col == "starSignal" else 1.0)
        for v in a[col].value:
            c.true("nonnegative", v >= 0)


HARNESSES = [
    H(signal, "12-point SED with or without samples at the borders of bins and band, 4-row QE table, R=4 bins on 1-1.95 um, all values symbolic, force flag on/off"),
    H(additive, "two arbitrary 12-point SEDs and any positive factor"),
]
