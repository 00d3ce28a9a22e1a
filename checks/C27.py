"""Extraction window of a spectrometer: spectral width x spatial width of every bin."""
from checks.lib import *
from checks.C24 import PRF
from checks.C25 import interp, solution

N = 24
W = [0.9, 1.5, 2.1]


def build(c, R=2, **k):
    set_R(c, N)
    stub_psf(c, PRF)
    c.patch("exorad.utils.exolib", "OmegaPix", lambda *a, **k: 1.0 * u.sr)  # solid angle: decided in C08
    sp = mod("models.instruments").Spectrometer("Spec", spec_desc(c, targetR=V(R), **k), payload(c, False, 1.0))
    sp.build()
    return sp


def compare(c, sp, spectral, spatial, scale=1.0):
    b = sp.built_instr
    c.eq("spectral", u.Quantity(b["window_spectral_width"]), c.arr(spectral), scale=scale)
    c.eq("spatial", u.Quantity(b["window_spatial_width"]), c.arr(spatial))
    p = [x * y for x, y in zip(spectral, spatial)]
    c.eq("size", u.Quantity(b["window_size_px"]), c.arr(p), scale=scale)
    c.eq("table", u.Quantity(sp.table["WindowSize"]), c.arr(p), scale=scale)


def edges(R):
    return fixed_bins(1.0, 2.0, R)


def cen(R):
    e = edges(R)
    return [0.5 * (a + b) for a, b in zip(e, e[1:])]


def dispersion(c):
    """any dispersion, direction and F-number; default radius 1.22"""
    a, x0, F = c.real("a", 60.0, 100.0), c.real("x0", -50.0, 50.0), c.real("F", 5.0, 40.0)
    s = c.choice("sign", [1.0, -1.0])
    R = c.choice("R", [2, 3])
    x = [x0, x0 + a * s * 0.6, x0 + a * s * 1.3]
    sp = build(c, R, wlSolution=solution(c, W, x, "um", "um", [0, 1, 2]), Fnum_y=V(c.scalar_q(F, "")))
    e = edges(R)
    px = [interp(v, W, x) for v in e]
    spec = [(q - p) * s / 18.0 for p, q in zip(px, px[1:])]
    compare(c, sp, spec, [2.44 * F * w / 18.0 for w in cen(R)])


def spatial(c):
    """encircled-energy radii, scale, imposed widths, in every combination"""
    R = 2
    F = c.real("F", 5.0, 40.0)
    ee = c.reals("ee", 3, 0.5, 3.0)
    enc = c.choice("enc", [None, "um", "nm"])
    scale, px, sx = c.flag("scale"), c.flag("px"), c.flag("sx")
    sc, npx, nsx = c.real("sc", 0.5, 3.0), c.real("npx", 1.0, 20.0), c.real("nsx", 1.0, 20.0)
    k = {}
    if enc:
        o = c.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
        k["EncESolution"] = {"data": table(c, {"EE": [ee[i] for i in o]}, [float((v * u.um).to(enc).value) for v in [[1.1, 1.6, 1.9][i] for i in o]], enc)}
    if scale:
        k["window_spatial_scale"] = V(c.scalar_q(sc, ""))
    if px:
        k["window_spatial_pixel"] = V(c.scalar_q(npx, ""))
    if sx:
        k["window_spectral_pixel"] = V(c.scalar_q(nsx, ""))
    x = [120.0, 70.0, 0.0]
    sp = build(c, R, wlSolution=solution(c, W, x, "um", "um", [0, 1, 2]), Fnum_y=V(c.scalar_q(F, "")), **k)
    e = edges(R)
    p = [interp(v, W, x) for v in e]
    spec = [nsx] * (len(e) - 1) if sx else [(a - b) / 18.0 for a, b in zip(p, p[1:])]
    rad = [interp(w, [1.1, 1.6, 1.9], ee) if enc else 1.22 for w in cen(R)]
    sp_ = [npx] * (len(e) - 1) if px else [2.0 * r * F * w / 18.0 * (sc if scale else 1.0) for r, w in zip(rad, cen(R))]
    compare(c, sp, spec, sp_)


def units(c):
    """any pixel size; limits, solution and pixel size in any length unit"""
    d = c.real("d", 14.0, 22.0)
    wu, xu, lu, du = c.choice("wu", ["um", "nm"]), c.choice("xu", ["um", "mm"]), c.choice("lu", ["um", "nm"]), c.choice("du", ["um", "mm"])
    x = [120.0, 70.0, 0.0]
    det = dict(delta_pix=V(c.scalar_q(d * u.um.to(du), du)), qe=V(c.scalar_q(0.7, "")), wl_min=V(0.5 * u.um), cut_off=V(3.0 * u.um))
    sp = build(c, 2, wl_min=V((1.0 * u.um).to(lu)), wl_max=V((2.0 * u.um).to(lu)), detector=det, wlSolution=solution(c, W, x, wu, xu, [0, 1, 2]))
    p = [interp(v, W, x) for v in edges(2)]
    compare(c, sp, [c.div(a - b, d) for a, b in zip(p, p[1:])], [c.div(2.44 * 30.0 * w, d) for w in cen(2)])


HARNESSES = [
    H(dispersion, "any offset, dispersion (both directions, bent) and F-number; 2..3 bins"),
    H(spatial, "any radii table (3 rows in any order, um or nm), scale, imposed spatial and spectral widths, in all combinations"),
    H(units, "any pixel size, 16 combinations of units"),
]
