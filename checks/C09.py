"""Slit: light entering it is spread over the slit image, light emitted behind it is not."""
from collections import OrderedDict

from checks.lib import *

N = 9
WLX = ((0.9, 0.0), (2.1, 216.0))
GRID = logspace(0.5, 3.0, N)


def spectro(c, els, slit_um, common=None, sol=WLX, pix=18.0 * u.um, **k):
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    d = spec_desc(c, sol, targetR=V(3), optics={"opticalElement": els}, **k)
    d["detector"]["delta_pix"] = V(pix)
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c, els=common))
    return sp


def on_pixels(sp, y):
    wl = grid_of(sp)[0]
    v = dict(zip(sorted(wl), resample(sorted(wl), GRID, y)))
    return [v[w] for w in wl]


def before_after(c):
    """hot elements before and after the slit, any emissivity and transmission"""
    delta, pix = c.choice("pix", [(15.0, 15.0 * u.um), (17.0, 0.017 * u.mm)])
    w_um = c.choice("slit", [60.0, 40.0, 20.0, 4.0 * delta, delta])
    un = c.choice("unit", ["um", "mm"])
    e, t = c.reals("e", 3, 0, 1), c.reals("t", 3, 0, 1)
    els = od(elem("B", temperature=300.0 * u.K, emissivity=e[0], transmission=t[0]),
             elem("S", "slit", width=w_um * u.um if un == "um" else w_um * 1e-3 * u.mm, transmission=t[1]),
             elem("A", temperature=280.0 * u.K, emissivity=e[2], transmission=t[2]))
    sol = c.choice("sol", [WLX, ((0.9, 216.0), (2.1, 0.0)), ((0.9, 0.0), (1.4, 130.0), (2.1, 216.0))])
    sp = spectro(c, els, w_um, sol=sol, pix=pix)
    sp.build()
    om, A = omega(20.0, 30.0), (delta * 1e-6) ** 2
    rad = [e[0] * t[1] * t[2] * planck(w, 300.0) for w in GRID]
    qe = [lin(w, GRID, [0.7] * N) for w in grid_of(sp)[0]]
    sig, mx = slit_signal(c, sp, on_pixels(sp, rad), qe, om, A, w_um, delta)
    op = sp.built_instr["optical_path"]
    c.eq("before", op["signal_table"]["B signal"], c.q(sig, "ct/s"))
    c.eq("before_max", op["max_signal_per_pixel"]["B"], c.q(mx, "ct/s"))
    band = trapz([e[2] * planck(w, 280.0) * 0.7 * om * A * w * PH for w in GRID], GRID)
    win = [float(x) for x in sp.built_instr["window_size_px"]]
    c.eq("after", op["signal_table"]["A signal"], c.q([band * x for x in win], "ct/s"))
    c.eq("after_max", op["max_signal_per_pixel"]["A"], c.q([band for x in win], "ct/s"))
    c.eq("total", sp.table["instrument_signal"], c.q([band * x + y for x, y in zip(win, sig)], "ct/s"))
    c.eq("total_max", sp.table["instrument_MaxSignal_inPixel"], c.q([band + y for y in mx], "ct/s"))


def in_common(c):
    """the slit acts on the common optics too, and a heated slit is not spread by itself"""
    e = c.reals("e", 2, 0, 1)
    own = c.flag("own")
    k = {"solid_angle": c.q(0.01, "sr")} if own else {}
    com = od(elem("M", temperature=300.0 * u.K, emissivity=e[0], **k))
    sp = spectro(c, od(elem("S", "slit", width=60.0 * u.um, temperature=290.0 * u.K, emissivity=e[1])), 60.0, common=com)
    sp.build()
    om, A = omega(20.0, 30.0), 18e-6 ** 2
    qe = [lin(w, GRID, [0.7] * N) for w in grid_of(sp)[0]]
    sig, mx = slit_signal(c, sp, on_pixels(sp, [e[0] * planck(w, 300.0) for w in GRID]), qe, 0.01 if own else om, A, 60.0)
    op = sp.built_instr["optical_path"]
    c.eq("before", op["signal_table"]["M signal"], c.q(sig, "ct/s"))
    band = trapz([e[1] * planck(w, 290.0) * 0.7 * om * A * w * PH for w in GRID], GRID)
    win = [float(x) for x in sp.built_instr["window_size_px"]]
    c.eq("slit_itself", op["signal_table"]["S signal"], c.q([band * x for x in win], "ct/s"))


def foreground(c):
    """a foreground crosses the slit even if nothing else in front of it shines"""
    S = mod("models.signal")
    hot = c.flag("hot")
    sp = spectro(c, od(elem("M", **({"temperature": 300.0 * u.K, "emissivity": 0.1} if hot else {})), elem("S", "slit", width=60.0 * u.um)), 60.0)
    qt = ([0.5, 3.0], [0.7, 0.7])
    if c.flag("narrow"):
        # the detector is blind at both ends of the band
        qt = ([1.231, 1.512, 1.773], [0.5, 0.7, 0.6])
    sp.description["detector"]["qe"] = {"datafile": V("q"), "data": table(c, {"Spec": qt[1]}, qt[0])}
    sp.build()
    wl = [0.6, 0.9, 1.25, 1.6, 2.0, 2.6]
    r = c.reals("r", 6, 0, 5)
    t = star(c, [1.0, 2.0], [1.0, 1.0])
    sky = S.Radiance(np.array(wl) * u.um, c.arr(r))
    back = c.flag("back")
    t.foreground = OrderedDict([("sky", sky)])
    if back:  # another one behind, seen through this one
        sky.transmission = np.full(6, 0.5)
        r2 = c.reals("b", 6, 0, 5)
        t.foreground = OrderedDict([("cloud", S.Radiance(np.array(wl) * u.um, c.arr(r2))), ("sky", sky)])
    out = sp.propagate_diffuse_foreground(t)
    tr = resample(wl, GRID, [1.0] * N)
    rad = [a * b for a, b in zip(r, tr)]
    px = grid_of(sp)[0]
    qe = [lin(w, *qt) for w in px]
    for n, y in [("sky", rad)] + ([("cloud", [0.5 * a * b for a, b in zip(r2, tr)])] if back else []):
        v = dict(zip(sorted(px), resample(sorted(px), wl, y)))
        sig, mx = slit_signal(c, sp, [v[w] for w in px], qe, omega(20.0, 30.0), 18e-6 ** 2, 60.0)
        c.eq("signal", out[n + "_signal"], c.q(sig, "ct/s"))
        c.eq("max", out[n + "_MaxSignal_inPixel"], c.q(mx, "ct/s"))


HARNESSES = [
    H(before_after, "emitters before/after a slit of 4 to 1 pixels (also exactly), slit and pixel in um/mm, three dispersions in both directions, any emissivity/transmission, ~10 pixels, 3 bins"),
    H(in_common, "emitter in the common optics, heated slit, default/custom solid angle"),
    H(foreground, "any 6-point radiances of one foreground or two, detectors sensitive in the whole band or in a part"),
]
