"""Diffuse light of the optics on the detector: solid angle by position, pixel area, photon conversion, window."""
from checks.lib import *

N = 5
GRID = logspace(0.5, 3.0, N)
FX, FY = 20.0, 30.0


def phot(c, els, **k):
    set_R(c, N)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    d = phot_desc(c, optics={"opticalElement": els}, **k)
    d["aperture"] = {"radius": V(k.pop("radius", 2.0))}
    return d


def expected(c, em, T, area, q, sr):
    dens = [e * planck(w, T) * q * sr * area * w * PH for e, w in zip(em, GRID)]
    return trapz(dens, GRID)


def window(f2=FX * FY, r=2.0, wl=1.5, pix=18.0):
    return r * r * f2 * wl * wl / pix ** 2


def solid_angle(c):
    """optical path: pixel field of view; optics box: pi minus it; detector box: pi; or the one asked for"""
    ty = c.choice("type", ["surface", "filter", "optics box", "detector box"])
    e, q = c.real("e", 0, 1), c.real("q", 0, 1)
    el = elem("X", ty, temperature=250.0 * u.K, emissivity=e)
    own = c.flag("own")
    if own:
        a = c.real("a", 1e-3, 6)
        el["solid_angle"] = V(c.q(a, "sr"))
    d = phot(c, el)
    fx, fy = c.choice("fnum", [(FX, FX), (FX, FY), (FY, FX), (FX * 1.00005, FX)])
    om = omega(fx, fy)
    d["detector"]["qe"] = V(c.scalar_q(q, ""))
    d["detector"]["delta_pix"] = V(c.choice("pix", [18.0 * u.um, 0.018 * u.mm]))
    d["Fnum_x"], d["Fnum_y"] = V(fx * u.Unit("")), V(fy * u.Unit(""))
    sr = a if own else {"optics box": np.pi - om, "detector box": np.pi}.get(ty, om)
    ph = mod("models.instruments").Photometer("Phot", d, payload(c))
    ph.build()
    px = expected(c, [e] * N, 250.0, 18e-6 ** 2, q, sr)
    win = window(fx * fy)
    op = ph.built_instr["optical_path"]
    c.eq("signal", op["signal_table"]["X signal"], c.q([px * win], "ct/s"))
    c.eq("maxpix", op["max_signal_per_pixel"]["X"], c.q([px], "ct/s"))


def many(c):
    """several emitters: each is attenuated by what follows, the channel totals are the sums"""
    e, t = c.reals("e", 3, 0, 1), c.reals("t", 3, 0, 1)
    T = [250.0, 200.0, None] if c.flag("cold") else [250.0, 200.0, 180.0]
    ty = ["surface", "optics box", "filter"]
    names = c.choice("names", [["X0", "X1", "X2"], ["X0", "X0", "X2"]])
    els = [elem(names[i], ty[i], emissivity=e[i], transmission=t[i], **({"temperature": T[i] * u.K} if T[i] else {})) for i in range(3)]
    box = c.flag("box")
    d = phot(c, od(*(els[1:] + ([elem("D", "detector box", temperature=150.0 * u.K)] if box else []))))
    ph = mod("models.instruments").Photometer("Phot", d, payload(c, els=els[0]))
    ph.build()
    om = omega(FX, FY)
    sr = [om, np.pi - om, om]
    px = []
    for i in range(3):
        if T[i] is None:
            continue
        a = 1.0
        for x in t[i + 1:]:
            a = a * x
        px.append(a * expected(c, [e[i]] * N, T[i], 18e-6 ** 2, 0.7, sr[i]))
    if box:
        px.append(expected(c, [1.0] * N, 150.0, 18e-6 ** 2, 0.7, np.pi))
    c.eq("total", ph.table["instrument_signal"], c.q([fsum(px) * window()], "ct/s"))
    c.eq("total_max", ph.table["instrument_MaxSignal_inPixel"], c.q([fsum(px)], "ct/s"))
    op = ph.built_instr["optical_path"]
    c.eq("sum_of_columns", fsum([op["signal_table"][k].to("ct/s").value[0] for k in op["signal_table"].keys()]) * u.ct / u.s,
         c.q(fsum(px) * window(), "ct/s"))


def efficiency(c):
    """quantum efficiency from a table on another sampling"""
    qx = c.choice("qx", [[0.45, 0.9, 1.7, 3.3], [0.45, 0.7, 0.9, 1.7, 3.3]])
    q = c.reals("q", 5, 0, 1)[:len(qx)]
    d = phot(c, elem("X", temperature=300.0 * u.K, emissivity=0.5))
    d["detector"]["qe"] = qe_table(c, "Phot", qx, q)
    ph = mod("models.instruments").Photometer("Phot", d, payload(c))
    ph.build()
    qe = resample(GRID, qx, q)
    om = omega(FX, FY)
    px = trapz([0.5 * planck(w, 300.0) * k * om * 18e-6 ** 2 * w * PH for w, k in zip(GRID, qe)], GRID)
    c.eq("total", ph.table["instrument_signal"], c.q([px * window()], "ct/s"))


def none_hot(c):
    t = c.reals("t", 2, 0, 1)
    d = phot(c, od(elem("A", transmission=t[0], emissivity=0.3), elem("B", transmission=t[1])))
    ph = mod("models.instruments").Photometer("Phot", d, payload(c))
    ph.build()
    c.eq("zero", ph.table["instrument_signal"], c.q([0.0], "ct/s"))
    c.eq("zero_max", ph.table["instrument_MaxSignal_inPixel"], c.q([0.0], "ct/s"))


HARNESSES = [
    H(solid_angle, "one emitter of any emissivity, four positions, any custom solid angle, circular/elliptical aperture, 5-point grid"),
    H(many, "three emitters of any emissivity/transmission plus optional detector box, 5-point grid"),
    H(efficiency, "4- or 5-row QE table of any values"),
    H(none_hot, "two unheated elements"),
]
