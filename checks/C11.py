"""Photometer: star signal, flux, aperture and brightest pixel."""
from checks.lib import *

SED = [0.62, 0.9, 1.3, 1.8, 2.3, 2.8]
QWL = [0.6, 1.2, 2.0, 2.9]
TWL = [0.55, 1.1, 1.9, 2.95]


def setup(c, n=5):
    set_R(c, n)
    q, t = c.reals("q", 4, 0, 1), c.reals("t", 4, 0, 1)
    A = c.real("A", 0.01, 10)
    d = phot_desc(c)
    d["detector"]["qe"] = qe_table(c, "Phot", QWL, q)
    el = elem("M")
    el["data"] = table(c, {"Transmission": t, "Emissivity": [0.0] * 4}, TWL)
    d["optics"] = {"opticalElement": el}
    grid = logspace(0.5, 3.0, n)
    return d, q, t, A, grid


def signal(c):
    d, q, t, A, grid = setup(c)
    prf = [[0.1, 0.2], [0.5, 0.05]]
    stub_psf(c, np.array(prf))
    f = c.reals("f", len(SED), 0, 100)
    force = c.flag("force")
    ph = mod("models.instruments").Photometer("Phot", d, payload(c, force, A))
    ph.build()
    out = ph.propagate_target(star(c, SED, f))
    gt = [lin(w, TWL, t) for w in grid]
    if force:
        gt = [v if 1.0 <= w <= 2.0 else 0.0 for v, w in zip(gt, grid)]
    inb = [1.0 if not force or 1.0 <= w <= 2.0 else 0.0 for w in SED]
    Q, T = resample(SED, QWL, q), resample(SED, grid, gt)
    dens = [fk * a * b * o * w * PH for fk, a, b, w, o in zip(f, Q, T, SED, inb)]
    sig = A * trapz(dens, SED)
    c.eq("flux", out["starFlux"], c.q([trapz([fk * b for fk, b in zip(f, inb)], SED)], "W/m2"), scale=1.0)
    c.eq("signal", out["starSignal"], c.q([sig], "ct/s"), scale=1e17)
    c.eq("aperture", out["star_signal_inAperture"], c.q([sig], "ct/s"), scale=1e17)
    c.eq("maxpix", out["star_MaxSignal_inPixel"], c.q([sig * 0.5], "ct/s"), scale=1e17)


def fine(c):
    """SED finer than the instrument grid (interpolated efficiency) and coarser (averaged)"""
    n = 5
    d, q, t, A, grid = setup(c, n)
    stub_psf(c, np.array([[0.3, 0.7]]))
    sed = list(np.linspace(1.05, 1.95, 9)) if c.flag("fine") else [0.7, 2.6]
    f = c.reals("f", len(sed), 0, 100)
    ph = mod("models.instruments").Photometer("Phot", d, payload(c, False, A))
    ph.build()
    out = ph.propagate_target(star(c, sed, f))
    gt = [lin(w, TWL, t) for w in grid]
    Q, T = resample(sed, QWL, q), resample(sed, grid, gt)
    sig = A * trapz([fk * a * b * w * PH for fk, a, b, w in zip(f, Q, T, sed)], sed)
    c.eq("signal", out["starSignal"], c.q([sig], "ct/s"), scale=1e17)


def aperture(c):
    """aperture fraction and the brightest pixel of any 2x2 PSF"""
    set_R(c, 9)
    prf = [[c.real("p%d%d" % (i, j), 0.0, 1.0) for j in range(2)] for i in range(2)]
    stub_psf(c, np.array([c.arr(r) for r in prf]))
    corr, en = c.real("corr", 0.01, 1.0), c.real("en", 0.01, 1.0)
    d = phot_desc(c)
    d["aperture"] = {}
    ap = c.choice("ap", ["none", "corr", "ene", "both", "radius_and_ene"])
    rad = []
    if ap in ("corr", "both"):
        d["aperture"]["apertureCorrection"] = V(c.scalar_q(corr, ""))
    if ap in ("ene", "both", "radius_and_ene"):
        def far(ima, eec, *a):
            rad.append(eec)
            return 1.5
        c.patch("exorad.utils.exolib", "find_aperture_radius", far)
        d["aperture"]["EnE"] = V(en)
    if ap in ("none", "corr", "radius_and_ene"):
        d["aperture"]["radius"] = V(2.0)
    A = c.real("A", 0.01, 10)
    ph = mod("models.instruments").Photometer("Phot", d, payload(c, False, A))
    ph.build()
    sed = [1.1, 1.4, 1.9]
    f = c.reals("f", 3, 0, 100)
    out = ph.propagate_target(star(c, sed, f))
    Q = resample(sed, logspace(0.5, 3.0, 9), [0.7] * 9)
    T = resample(sed, logspace(0.5, 3.0, 9), [1.0] * 9)
    sig = A * trapz([fk * a * b * w * PH for fk, a, b, w in zip(f, Q, T, sed)], sed)
    c.eq("signal", out["starSignal"], c.q([sig], "ct/s"), scale=1e17)
    fac = 1.0 if ap == "none" else en if "ene" in ap else corr
    c.eq("aperture", out["star_signal_inAperture"], c.q([sig * fac], "ct/s"), scale=1e17)
    if rad:
        c.eq("ene_passed", rad[0], en)
    m = prf[0][0]
    for v in (prf[0][1], prf[1][0], prf[1][1]):
        if v > m:
            m = v
    c.eq("maxpix", out["star_MaxSignal_inPixel"], c.q([sig * m], "ct/s"), scale=1e17)


HARNESSES = [
    H(signal, "6-point SED, 4-row QE and transmission tables, 5-point instrument grid, all values symbolic, force flag on/off"),
    H(fine, "9-point and 2-point SED"),
    H(aperture, "any 2x2 PSF, four aperture configurations, 3-point SED"),
]
