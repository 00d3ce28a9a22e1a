"""ForceChannelWlEdge: no out-of-band light when set, nothing changed when absent or false."""
from checks.lib import *

SED = SED0 = [0.62, 0.9, 1.0, 1.3, 1.8, 2.0, 2.3, 2.8]
N = 5
GRID = logspace(0.5, 3.0, N)


def make(c, kind, force, t, lo, hi, un="um", f=1.0):
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    els = elem("M", temperature=300.0 * u.K, emissivity=0.5, transmission=t)
    k = dict(optics={"opticalElement": els}, wl_min=V(lo * f * u.Unit(un)), wl_max=V(hi * f * u.Unit(un)))
    pl = payload(c, False, 1.0)
    if force is None:
        del pl["optics"]["ForceChannelWlEdge"]
    else:
        pl["optics"]["ForceChannelWlEdge"] = V(force)
    if kind == "phot":
        return mod("models.instruments").Photometer("Ch", phot_desc(c, **k), pl)
    return mod("models.instruments").Spectrometer("Ch", spec_desc(c, ((0.9, 0.0), (2.1, 432.0)), **k), pl)


def photometer(c):
    """any SED; the forced channel sees exactly the samples of [wl_min, wl_max]"""
    force = c.choice("force", [None, False, True])
    t, f = c.real("t", 0, 1), c.reals("f", len(SED), 0, 10)
    un, fac, lo, hi = c.choice("un", [("um", 1.0, 0.95, 2.05), ("nm", 1e3, 0.95, 2.05), ("um", 1.0, 1.0, 2.0)])  # the last: samples at the limits
    ph = make(c, "phot", force, t, lo, hi, un, fac)
    ph.build()
    on = bool(force)
    inb = lambda w: 1.0 if not on or lo <= w <= hi else 0.0  # noqa: E731
    b = ph.built_instr["transmission_data"]
    c.eq("transmission", b["data"]["value"], c.arr([t * inb(w) for w in GRID]))
    out = ph.propagate_target(star(c, SED, f))
    Q, T = resample(SED, GRID, [0.7] * N), resample(SED, GRID, [t * inb(w) for w in GRID])
    sig = trapz([a * q * x * inb(w) * w * PH for a, q, x, w in zip(f, Q, T, SED)], SED)
    c.eq("signal", out["starSignal"], c.q([sig], "ct/s"), scale=1e17)
    c.eq("flux", out["starFlux"], c.q([trapz([a * inb(w) for a, w in zip(f, SED)], SED)], "W/m2"), scale=1.0)


def spectrometer(c):
    force = c.choice("force", [None, False, True, np.bool_(True)])
    hi = c.choice("hi", [1.95, 1.85, 1.75])  # the last bin goes beyond the channel, also with its centre
    SED = [w for w in SED0 if w != 1.8] + [1.81, 1.9] + [hi] * c.flag("limit")
    SED.sort()
    t, f = c.real("t", 0, 1), c.reals("f", len(SED), 0, 10)
    sp = make(c, "spec", force, t, 1.0, hi)
    sp.build()
    on = bool(force)
    inb = lambda w: 1.0 if not on or 1.0 <= w <= hi else 0.0  # noqa: E731
    b = sp.built_instr["transmission_data"]
    c.eq("transmission", b["data"]["value"], c.arr([t * inb(w) for w in GRID]))
    out = sp.propagate_target(star(c, SED, f))
    Q, T = resample(SED, GRID, [0.7] * N), resample(SED, GRID, [t * inb(w) for w in GRID])
    dens = [a * q * x * inb(w) * w * PH for a, q, x, w in zip(f, Q, T, SED)]
    e = fixed_bins(1.0, hi, 4)
    c.eq("bins", sp.table["TR"], c.arr([t * inb(0.5 * (a + b_)) for a, b_ in zip(e, e[1:])]))
    c.eq("flux", out["starFlux"], c.q([trapz([x * inb(w) if a <= w < b_ else 0.0 for x, w in zip(f, SED)], SED) for a, b_ in zip(e, e[1:])], "W/m2"), scale=1.0)
    want = [trapz([d if a <= w < b_ else 0.0 for d, w in zip(dens, SED)], SED) for a, b_ in zip(e, e[1:])]
    c.eq("signal", out["starSignal"], c.q(want, "ct/s"), scale=1e17)


def foreground(c):
    """diffuse light of the sky is cut as well"""
    S = mod("models.signal")
    force = c.choice("force", [None, True, np.bool_(True)])
    ph = make(c, "phot", force, 1.0, 0.95, 2.05)
    ph.build()
    r = c.reals("r", N, 0, 5)
    t = star(c, SED, [1.0] * len(SED))
    t.foreground = {"sky": S.Radiance(np.array(GRID) * u.um, c.arr(r))}
    out = ph.propagate_diffuse_foreground(t)
    px = trapz([a * (1.0 if not force or 0.95 <= w <= 2.05 else 0.0) * 0.7 * omega(20.0, 30.0) * 18e-6 ** 2 * w * PH for a, w in zip(r, GRID)], GRID)
    c.eq("max", out["sky_MaxSignal_inPixel"], c.q([px], "ct/s"))
    win = 4.0 * 600 * 1.5 ** 2 / 18 ** 2
    c.eq("signal", out["sky_signal"], c.q([px * win], "ct/s"))


def outside_irrelevant(c):
    """with the option on, two spectra that agree inside the band give the same counts"""
    t = c.real("t", 0, 1)
    ph = make(c, "phot", True, t, 0.95, 2.05)
    ph.build()
    f, g = c.reals("f", len(SED), 0, 10), c.reals("g", len(SED), 0, 10)
    g = [a if 0.95 <= w <= 2.05 else b for a, b, w in zip(f, g, SED)]
    a, b = ph.propagate_target(star(c, SED, f)), ph.propagate_target(star(c, SED, g))
    for k in ("starSignal", "starFlux", "star_MaxSignal_inPixel", "star_signal_inAperture"):
        c.eq(k, a[k], b[k], scale=1e17 if "ignal" in k else 1.0)


HARNESSES = [
    H(photometer, "any 8-point SED and transmission, option absent/false/true, band in um or nm, samples between or at its limits"),
    H(spectrometer, "any 8-point SED and transmission, option absent/false/true, with or without a sample at the upper limit, bins ending at the limit or beyond"),
    H(foreground, "any 5-point sky radiance, option absent/true"),
    H(outside_irrelevant, "two 8-point SEDs equal inside the band"),
]
