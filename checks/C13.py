"""Spectrometer: brightest pixel of each spectral bin."""
from checks.lib import *

N = 9
SOL = {"up": ((0.9, 0.0), (2.1, 216.0)), "down": ((0.9, 216.0), (2.1, 0.0)), "bent": ((0.9, 0.0), (1.4, 130.0), (2.1, 216.0))}


def run(c, sol, prf, kernel, f, sed, extra=None, R=3):
    set_R(c, N)
    stub_psf(c, prf, kernel)
    d = spec_desc(c, SOL[sol], targetR=V(R), **(extra or {}))
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c, False, 1.0))
    sp.build()
    return sp, sp.propagate_target(star(c, sed, f))


def expected(c, sol, gain, f, sed, edges):
    pix = pixels(SOL[sol])
    wl = [w for w, _ in pix]
    grid = logspace(0.5, 3.0, N)
    Q, T = resample(sed, grid, [0.7] * N), resample(sed, grid, [1.0] * N)
    dens = [fk * a * b * w * PH for fk, a, b, w in zip(f, Q, T, sed)]
    dp = dict(zip(sorted(wl), resample(sorted(wl), sed, dens)))
    out = []
    for a, b in zip(edges, edges[1:]):
        v = [dp[w] * bw * gain(w) for w, bw in pix if a < w < b]
        out.append(c.max(v))
    return out


def brightest(c):
    """any SED sampled coarser than the pixels: interpolated density x pixel bandwidth x PSF column gain"""
    sol = c.choice("sol", list(SOL))
    sed = [0.8, 1.001, 1.3, 1.75, 2.4]
    f = [0.0, 0.0] + c.reals("f", 3, 0, 10)  # dark at the very edge of the band (first pixel)
    prf = np.array([[0.1, 0.2], [0.5, 0.05]])
    sp, out = run(c, sol, prf, np.array([[0.5, 1.0], [0.5, 1.0]]), f, sed)
    e = fixed_bins(1.0, 2.0, 3)
    c.eq("maxpix", out["star_MaxSignal_inPixel"], c.q(expected(c, sol, lambda w: 0.6 / 2.0, f, sed, e), "ct/s"), scale=1e17)


def averaged(c):
    """SED finer than the pixels: mean over the pixel"""
    sed = [float(v) for v in np.arange(0.973, 2.05, 0.04)]
    f = c.reals("f", 3, 0, 10)
    f = [f[k % 3] if w > 1.05 else 0.0 for k, w in enumerate(sed)]
    sp, out = run(c, "up", np.array([[0.1, 0.2], [0.5, 0.05]]), np.ones((2, 2)), f, sed)
    e = fixed_bins(1.0, 2.0, 3)
    c.eq("maxpix", out["star_MaxSignal_inPixel"], c.q(expected(c, "up", lambda w: 0.6 / 2.0, f, sed, e), "ct/s"), scale=1e17)


def gain(c):
    """any 2x2 PSF and pixel response: largest column sum over the largest kernel column"""
    p = [[c.real("p%d%d" % (i, j), 0.0, 1.0) for j in range(2)] for i in range(2)]
    k = np.array([[0.25, 0.5, 0.25], [0.5, 1.0, 0.5]])
    wfe = c.flag("wfe")
    sed = [0.8, 1.001, 1.3, 1.75, 2.4]
    sol = c.choice("sol", ["up", "down"])
    sp, out = run(c, sol, np.array([c.arr(r) for r in p]), k, [0.0, 0.0, 2.0, 1.5, 1.2], sed, {"WFErms": V((0.1 * u.um).to(c.choice("wfe_unit", ["um", "nm"])))} if wfe else None)
    a, b = p[0][0] + p[1][0], p[0][1] + p[1][1]
    g = c.max([a, b]) / 1.5
    e = fixed_bins(1.0, 2.0, 3)
    st = (lambda w: 1.0) if not wfe else (lambda w: float(np.exp(-(2 * np.pi * 0.1 / w) ** 2)))
    gd = sp.built_instr["gain_prf_data"]
    wl = [w for w, _ in pixels(SOL[sol])]
    wls = np.linspace(min(wl), max(wl), 10)
    c.eq("gain_grid", gd["wl_grid"]["value"], wls)
    c.eq("gain", gd["data"]["value"], c.arr([g * st(w) for w in wls]))
    if not wfe:
        c.eq("maxpix", out["star_MaxSignal_inPixel"], c.q(expected(c, sol, lambda w: g, [0.0, 0.0, 2.0, 1.5, 1.2], sed, e), "ct/s"))


HARNESSES = [
    H(brightest, "any SED with 3 free samples, three wavelength solutions (~10 pixels), R=3 bins"),
    H(averaged, "28-point SED with three independent levels"),
    H(gain, "any 2x2 PSF, fixed 2x3 pixel response, with/without wavefront error"),
]
