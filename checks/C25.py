"""Pixel grid of a spectrometer: wavelength and bandwidth of each pixel from the wavelength solution."""
from checks.lib import *
from checks.C24 import PRF

N = 24


def solution(c, w, x, wu, xu, order):
    T = Table()
    T["Wavelength"] = Column(c.arr([w[i] * u.um.to(wu) for i in order]) if any(not isinstance(v, float) for v in w) else np.array([w[i] for i in order]) * u.um.to(wu), unit=wu)
    v = [x[i] * u.um.to(xu) for i in order]
    T["x"] = Column(c.arr(v), unit=xu)
    return {"data": T}


def build(c, **k):
    set_R(c, N)
    stub_psf(c, PRF)
    sp = mod("models.instruments").Spectrometer("Spec", spec_desc(c, targetR=V(2), **k), payload(c, False, 1.0))
    sp.build()
    return sp


def interp(v, a, b):
    """piecewise linear, extrapolated; a ascending"""
    k = 1
    while k < len(a) - 1 and v > a[k]:
        k += 1
    return b[k - 1] + (b[k] - b[k - 1]) * ((v - a[k - 1]) / (a[k] - a[k - 1]))


def compare(c, sp, w, x, lo, hi, delta):
    """w ascending, x monotonic"""
    first, last = interp(lo, w, x), interp(hi, w, x)
    if last < first:
        first, last = last, first
    up = x[-1] > x[0]
    xs, ws = (x, w) if up else (x[::-1], w[::-1])
    n = len(sp.built_instr["wl_pix_center"])
    wl = sp.built_instr["wl_pix_center"].to("um").value
    bw = sp.built_instr["pixel_bandwidth"].to("um").value
    pc = sp.built_instr["pix_center"].to("um").value
    c.true("same_length", len(bw) == n and len(pc) == n)
    for i in range(n):
        p = first + delta * (n - 1 - i)
        c.eq("coordinate", pc[i], p, scale=1.0)
        c.eq("wavelength", wl[i], interp(p, xs, ws))
        d = interp(p + 0.5 * delta, xs, ws) - interp(p - 0.5 * delta, xs, ws)
        c.eq("bandwidth", bw[i], d if up else -d)
        c.true("positive", bw[i] > 0)
    c.true("inside", first + delta * (n - 1) < last + 1e-6)
    c.true("complete", first + delta * n >= last - 1e-6)


def limits(c):
    """any band limits, three solutions, rows in any order"""
    lo, hi = c.real("lo", 0.95, 1.1), c.real("hi", 1.7, 2.0)
    w, x = c.choice("sol", [([0.9, 2.1], [0.0, 120.0]), ([0.9, 2.1], [120.0, 0.0]), ([0.9, 1.4, 2.1], [10.0, 80.0, 120.0]), ([0.9, 1.5, 2.1], [120.0, 70.0, 0.0]), ([1.2, 1.6], [-20.0, 20.0])])
    order = list(range(len(w)))
    if c.flag("reversed"):
        order = order[::-1]
    sp = build(c, wl_min=V(c.scalar_q(lo, "um")), wl_max=V(c.scalar_q(hi, "um")), wlSolution=solution(c, w, x, "um", "um", order))
    compare(c, sp, w, x, lo, hi, 18.0)


def dispersion(c):
    """any dispersion and offset of a linear or bent solution"""
    a, x0 = c.real("a", 60.0, 100.0), c.real("x0", -50.0, 50.0)
    s = c.choice("sign", [1.0, -1.0])
    w = c.choice("w", [[0.9, 2.1], [0.9, 1.5, 2.1]])
    x = [x0 + a * s * (v - 0.9) * (1.0 if v < 2 or len(w) == 2 else 1.1) for v in w]
    sp = build(c, wlSolution=solution(c, w, x, "um", "um", list(range(len(w)))))
    compare(c, sp, w, x, 1.0, 2.0, 18.0)


def units(c):
    """limits, solution, pixel size each in any length unit; any pixel size"""
    d = c.real("d", 14.0, 22.0)
    wu, xu, lu, du = c.choice("wu", ["um", "nm"]), c.choice("xu", ["um", "mm"]), c.choice("lu", ["um", "nm"]), c.choice("du", ["um", "mm"])
    w, x = [0.9, 1.5, 2.1], [120.0, 70.0, 0.0]
    det = dict(delta_pix=V(c.scalar_q(d * u.um.to(du), du)), qe=V(c.scalar_q(0.7, "")), wl_min=V(0.5 * u.um), cut_off=V(3.0 * u.um))
    sp = build(c, wl_min=V((1.0 * u.um).to(lu)), wl_max=V((2.0 * u.um).to(lu)), detector=det, wlSolution=solution(c, w, x, wu, xu, [0, 1, 2]))
    compare(c, sp, w, x, 1.0, 2.0, d)


def missing(c):
    """no wavelength solution: refused"""
    d = spec_desc(c)
    d["wlSolution"] = {}
    set_R(c, N)
    stub_psf(c, PRF)
    c.true("refused", raises(KeyError, mod("models.instruments").Spectrometer("Spec", d, payload(c, False, 1.0)).build))


HARNESSES = [
    H(limits, "any limits, five solutions (up/down, linear/bent, extrapolated), rows in both orders; up to 7 pixels"),
    H(dispersion, "any offset and dispersion (60..100 um/um) in both directions, linear or bent"),
    H(units, "any pixel size 14..22 um, 16 combinations of units"),
    H(missing, "no solution"),
]
