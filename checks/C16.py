"""Foregrounds filter what lies behind them; the star sees their total transmission."""
from checks.lib import *

N = 5
GRID = logspace(0.5, 3.0, N)
XS = [0.4, 1.0, 2.0, 3.5]


def frg(c, name, r, t, un="W/(m2 um sr)", k=1.0):
    T = QTable()
    T["Wavelength"] = np.array(XS) * u.um
    T["Radiance"] = c.q([x * k for x in r], un)
    T["Transmission"] = c.arr(t)
    return {"value": name, "data": T}


def setup(c):
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    ph = mod("models.instruments").Photometer("Phot", phot_desc(c), payload(c))
    ph.build()
    return ph


def px_of(rad):
    return trapz([a * 0.7 * omega(20.0, 30.0) * 18e-6 ** 2 * w * PH for a, w in zip(rad, GRID)], GRID)


def estimate(c, descs):
    from collections import OrderedDict
    F = mod("tasks.foregroundHandler").EstimateForegrounds()
    t = star(c, [0.6, 1.1, 1.7, 2.8], [1.0, 1.0, 1.0, 1.0])
    d = descs[0] if len(descs) == 1 and c.flag("single") else OrderedDict((x["value"], x) for x in descs)
    return F(foregrounds=d, target=t, wl_range=(0.5 * u.um, 3.0 * u.um))


def filters(c):
    """1..3 custom foregrounds of any radiance and transmission, in any order"""
    n = c.int("n", 1, 3)
    ph = setup(c)
    r = [c.reals("r%d_" % i, 4, 0, 5) for i in range(n)]
    t = [c.reals("t%d_" % i, 4, 0, 1) for i in range(n)]
    names = c.choice("names", [["F%d" % i for i in range(n)], ["zodiacal %d" % i for i in range(n)]])
    tgt = estimate(c, [frg(c, names[i], r[i], t[i]) for i in range(n)])
    tr = [[lin(w, XS, t[i]) for w in GRID] for i in range(n)]
    c.true("order", list(tgt.foreground) == names)
    out = ph.propagate_diffuse_foreground(tgt)
    tot = [1.0] * N
    for i in reversed(range(n)):
        rad = [lin(w, XS, r[i]) * x for w, x in zip(GRID, tot)]
        c.eq("max", out[names[i] + "_MaxSignal_inPixel"], c.q([px_of(rad)], "ct/s"))
        c.eq("radiance", tgt.foreground[names[i]].data, c.q([lin(w, XS, r[i]) for w in GRID], "W/(m2 um sr)"))
        tot = [a * b for a, b in zip(tot, tr[i])]
    c.eq("sky_transmission", tgt.skyTransmission.data, c.arr(tot))
    c.eq("sky_grid", tgt.skyTransmission.wl_grid.value, GRID)


def with_zodi(c):
    """zodiacal light behind or in front of a filter"""
    ph = setup(c)
    r, t = c.reals("r", 4, 0, 5), c.reals("t", 4, 0, 1)
    A = c.real("A", 0, 10)
    z = {"value": "zodiacal", "zodiacFactor": V(A)}
    f = frg(c, "sky", r, t)
    behind = c.flag("behind")
    tgt = estimate(c, [z, f] if behind else [f, z])
    zr = [A * (3.5e-14 * planck(w, 5500.0) + 3.58e-8 * planck(w, 270.0)) for w in GRID]
    tr = [lin(w, XS, t) for w in GRID]
    out = ph.propagate_diffuse_foreground(tgt)
    c.eq("zodi", out["zodi_MaxSignal_inPixel"], c.q([px_of([a * (b if behind else 1.0) for a, b in zip(zr, tr)])], "ct/s"))
    c.eq("sky", out["sky_MaxSignal_inPixel"], c.q([px_of([lin(w, XS, r) for w in GRID])], "ct/s"))
    c.eq("sky_transmission", tgt.skyTransmission.data, c.arr(tr))


def star_dimmed(c):
    """the star's counts are reduced by the product of the foreground transmissions"""
    ph = setup(c)
    n = c.int("n", 1, 2)
    t = [c.reals("t%d_" % i, 4, 0, 1) for i in range(n)]
    sed = [0.6, 1.1, 1.7, 2.8]
    f = c.reals("f", 4, 0, 10)
    tgt = estimate(c, [frg(c, "F%d" % i, [1.0] * 4, t[i]) for i in range(n)])
    tgt.star.sed = star(c, sed, f).star.sed
    out = ph.propagate_target(tgt)
    tot = [1.0] * N
    for x in t:
        tot = [a * lin(w, XS, x) for a, w in zip(tot, GRID)]
    S, Q, T = resample(sed, GRID, tot), resample(sed, GRID, [0.7] * N), resample(sed, GRID, [1.0] * N)
    sig = 0.5 * trapz([a * s * q * x * w * PH for a, s, q, x, w in zip(f, S, Q, T, sed)], sed)
    c.eq("signal", out["starSignal"], c.q([sig], "ct/s"), scale=1e17)
    c.eq("reported", out["foreground_transmission"], c.arr([lin(1.5, GRID, tot)]))
    c.eq("flux_not_dimmed", out["starFlux"], c.q([trapz(f, sed)], "W/m2"), scale=1.0)


def outside_data(c):
    """outside the tabulated range a foreground is dark and transparent; units of table and grid, row order"""
    S = mod("models.foregrounds.skyForegrounds").SkyForeground
    r, t = c.reals("r", 4, 0, 5), c.reals("t", 4, 0, 1)
    un, k = c.choice("un", [("W/(m2 um sr)", 1.0), ("mW/(m2 nm sr)", 1.0), ("W/(cm2 um sr)", 1e-4)])
    wl = [0.2, 0.7, 1.5, 3.0, 5.0]
    tu = c.choice("table_unit", ["um", "nm", "m"])
    gu = c.choice("grid_unit", ["um", "nm"])
    o = c.choice("rows", [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]])
    d = frg(c, "x", r, t, un, k)
    T = QTable()
    T["Wavelength"] = (np.array([XS[i] for i in o]) * u.um).to(tu)
    T["Radiance"] = c.q([r[i] * k for i in o], un)
    T["Transmission"] = c.arr([t[i] for i in o])
    d["data"] = T
    s = S((np.array(wl) * u.um).to(gu), d).skyFilter
    c.eq("radiance", s.data, c.q([lin(w, XS, r) for w in wl], "W/(m2 um sr)"))
    c.eq("transmission", s.transmission, c.arr([lin(w, XS, t, 1.0) for w in wl]))
    c.eq("grid", s.wl_grid.to("um").value, wl)


def repeated(c):
    """estimating the foregrounds of a target again counts each once, as last described"""
    setup(c)
    n = c.int("n", 1, 2)
    t = [c.reals("t%d_" % i, 4, 0, 1) for i in range(n)]
    ds = [frg(c, "F%d" % i, [1.0] * 4, t[i]) for i in range(n)]
    tgt = estimate(c, ds)
    arg = od(*ds) if n > 1 else ds[0]
    if c.flag("other"):  # the later description is the one that counts
        t = [c.reals("o%d_" % i, 4, 0, 1) for i in range(n)]
        ds = [frg(c, "F%d" % i, [2.0] * 4, t[i]) for i in range(n)]
        arg = od(*ds) if n > 1 else ds[0]
    tgt = mod("tasks.foregroundHandler").EstimateForegrounds()(foregrounds=arg, target=tgt, wl_range=(0.5 * u.um, 3.0 * u.um))
    tot = [1.0] * N
    for i in range(n):
        x = [lin(w, XS, t[i]) for w in GRID]
        c.eq("transmission", tgt.foreground["F%d" % i].transmission, c.arr(x))
        tot = [a * b for a, b in zip(tot, x)]
    c.eq("sky_transmission", tgt.skyTransmission.data, c.arr(tot))
    c.true("order", list(tgt.foreground) == ["F%d" % i for i in range(n)])


HARNESSES = [
    H(repeated, "1..2 foregrounds with any 4-row transmission, estimated twice, from the same or another description"),
    H(filters, "1..3 foregrounds, 4-row tables of any radiance/transmission, 5-point grid"),
    H(with_zodi, "zodiacal light and one filter in both orders"),
    H(star_dimmed, "1..2 filters and any 4-point SED"),
    H(outside_data, "grid wider than the table, three radiance units, table in um/nm/m in three row orders, grid in um/nm"),
]
