"""Diffuse foregrounds: counts per pixel and per window of one foreground."""
from checks.lib import *

N = 7
GRID = logspace(0.5, 3.0, N)
SKY = [0.55, 0.8, 1.15, 1.6, 2.1, 2.7]


def target(c, frg):
    t = star(c, [1.0, 2.0], [1.0, 1.0])
    t.foreground = frg
    return t


def photometer(c):
    """any radiance, transmission and quantum efficiency"""
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    r, t = c.reals("r", len(SKY), 0, 5), c.real("t", 0, 1)
    qx, q = [0.45, 0.9, 1.7, 3.3], c.reals("q", 4, 0, 1)
    xs, tt = [0.4, 1.0, 2.0, 3.5], c.reals("x", 4, 0, 1)
    M = elem("M")
    M["data"] = table(c, {"Transmission": tt, "Emissivity": [0.0] * 4}, xs)
    d = phot_desc(c, optics={"opticalElement": od(M, elem("F", transmission=t))})
    d["detector"]["qe"] = qe_table(c, "Phot", qx, q)
    if c.flag("circular"):
        d["Fnum_y"] = V(20.0 * u.Unit(""))
        om, win = omega(20.0), 4.0 * 400 * 2.25 / 324.0
    else:
        om, win = omega(20.0, 30.0), 4.0 * 600 * 2.25 / 324.0
    ph = mod("models.instruments").Photometer("Phot", d, payload(c))
    ph.build()
    S = mod("models.signal")
    out = ph.propagate_diffuse_foreground(target(c, {"sky": S.Radiance(np.array(SKY) * u.um, c.arr(r))}))
    T = resample(SKY, GRID, [t * lin(w, xs, tt) for w in GRID])
    Q = resample(SKY, qx, q)
    px = trapz([a * x * y * om * 18e-6 ** 2 * w * PH for a, x, y, w in zip(r, T, Q, SKY)], SKY)
    c.eq("max", out["sky_MaxSignal_inPixel"], c.q([px], "ct/s"))
    c.eq("signal", out["sky_signal"], c.q([px * win], "ct/s"))


def spectrometer(c):
    """without a slit every pixel receives the whole band"""
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    r, t = c.reals("r", len(SKY), 0, 5), c.real("t", 0, 1)
    d = spec_desc(c, targetR=V(3), optics={"opticalElement": elem("F", transmission=t)})
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c))
    sp.build()
    S = mod("models.signal")
    out = sp.propagate_diffuse_foreground(target(c, {"sky": S.Radiance(np.array(SKY) * u.um, c.arr(r))}))
    T, Q = resample(SKY, GRID, [t] * N), resample(SKY, GRID, [0.7] * N)
    px = trapz([a * x * y * omega(20.0, 30.0) * 18e-6 ** 2 * w * PH for a, x, y, w in zip(r, T, Q, SKY)], SKY)
    win = [float(x) for x in sp.built_instr["window_size_px"]]
    c.eq("max", out["sky_MaxSignal_inPixel"], c.q([px] * len(win), "ct/s"))
    c.eq("signal", out["sky_signal"], c.q([px * x for x in win], "ct/s"))


def independent(c):
    """two foregrounds without transmission do not affect each other, and the inputs are left alone"""
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    S = mod("models.signal")
    ph = mod("models.instruments").Photometer("Phot", phot_desc(c), payload(c))
    ph.build()
    a, b = c.reals("a", N, 0, 5), c.reals("b", N, 0, 5)
    A = S.Radiance(np.array(GRID) * u.um, c.arr(a))
    B = S.Radiance(np.array(GRID) * u.um, c.arr(b))
    frg = {"A": A, "B": B}
    both = ph.propagate_diffuse_foreground(target(c, frg))
    oa = ph.propagate_diffuse_foreground(target(c, {"A": A}))
    ob = ph.propagate_diffuse_foreground(target(c, {"B": B}))
    c.true("columns", sorted(both.keys()) == ["A_MaxSignal_inPixel", "A_signal", "B_MaxSignal_inPixel", "B_signal"])
    for k in ("signal", "MaxSignal_inPixel"):
        c.eq("A_" + k, both["A_" + k], oa["A_" + k])
        c.eq("B_" + k, both["B_" + k], ob["B_" + k])
    c.eq("input_kept", A.data.value, c.arr(a))
    c.eq("grid_kept", A.wl_grid.value, GRID)


HARNESSES = [
    H(photometer, "any 6-point sky radiance, 4-row transmission and QE tables of any values, circular/elliptical aperture"),
    H(spectrometer, "any 6-point sky radiance and transmission, 3 bins"),
    H(independent, "two foregrounds of any radiance"),
]
