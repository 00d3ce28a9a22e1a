"""Self-emission of the optics: emissivity x Planck, attenuated by every later element."""
from checks.lib import *

WL = [1.2, 3.0, 7.5]
TS = [None, 60.0, 180.0]


EN = ["M2", "Window", "D1", "B"]  # not in alphabetical order


def chain(c):
    """up to four elements split between common and channel optics"""
    P = mod("models.optics.opticalPath").OpticalPath
    n = c.int("n", 1, 4)
    k0 = c.int("k0", 0, 1)
    again = k0 == 1 and n in (2, 3) and c.flag("again%d" % n)
    els, T, em, tr = [], [], [], []
    slit = n - 2 + c.int("slit%d" % n, 0, 1) if n in (2, 3) and not again else -1
    for i in range(n):
        t = c.choice("T%d" % i, TS[:3] if i < 2 else TS[::2])
        e, x = c.real("e%d" % i, 0, 1), c.real("t%d" % i, 0, 1)
        k = dict(transmission=x, emissivity=e)
        if t is not None:
            k["temperature"] = t * u.K
        # a channel element may have the name of a common one
        ty = "slit" if i == slit else ("filter", "surface")[i % 2]
        els.append(elem(EN[0] if again and i == 1 else EN[i], ty, **k, **({"width": 36.0 * u.um} if ty == "slit" else {})))
        T.append(t), em.append(e), tr.append(x)
    a = P(wl=np.array(WL) * u.um, description={"optics": {"opticalElement": od(*els[:k0])}})
    b = P(wl=np.array(WL) * u.um, description={"optics": {"opticalElement": od(*els[k0:])}})
    b.prepend_optical_elements(a.optical_element_dict)
    r = b.chain()
    hot = [i for i in range(n) if T[i] is not None]
    keys = list(r)
    c.true("only_hot", len(keys) == len(hot) and (again or keys == [EN[i] for i in hot]))
    for key, i in zip(keys, hot):
        after = 1.0
        for x in tr[i + 1:]:
            after = after * x
        want = [em[i] * after * planck(w, T[i]) for w in WL]
        c.eq("radiance", r[key].data, c.q(want, "W/(m2 um sr)"))
        c.eq("table", b.radiance_table[key], c.q(want, "W/(m2 um sr)"))
        c.eq("grid", r[key].wl_grid, np.array(WL) * u.um)


def spectral(c):
    """wavelength dependent transmission and emissivity read from tables"""
    P = mod("models.optics.opticalPath").OpticalPath
    xs = [1.0, 4.0, 8.0]
    e0, t0, e1, t1 = (c.reals(k, 3, 0, 1) for k in ("ea", "ta", "eb", "tb"))
    A, B = elem("A", temperature=100.0 * u.K), elem("B", "filter", temperature=140.0 * u.K)
    A["data"] = table(c, {"Transmission": t0, "Emissivity": e0}, xs)
    B["data"] = table(c, {"Transmission": t1, "Emissivity": e1}, xs)
    B["wl_max"] = V(5.0 * u.um)
    p = P(wl=np.array(WL) * u.um, description={"optics": {"opticalElement": od(A, B)}})
    r = p.chain()
    wa = [lin(w, xs, e0) * (lin(w, xs, t1) if w <= 5 else 0.0) * planck(w, 100.0) for w in WL]
    wb = [lin(w, xs, e1) * planck(w, 140.0) for w in WL]
    c.eq("first", r["A"].data, c.q(wa, "W/(m2 um sr)"))
    c.eq("last", r["B"].data, c.q(wb, "W/(m2 um sr)"))


def blackbody(c):
    """surface_radiance at any temperature"""
    far = c.choice("far", [1.0, 20.0])  # thermal and far infrared
    T, e = c.real("T", 30, 400) / far, c.real("e", 0, 1)
    WL = [x * far for x in (1.2, 3.0, 7.5)]
    f = mod("models.optics.opticalPath").surface_radiance
    form = c.int("form", 0, 1)
    wl = np.array(WL) * u.um if form == 0 else np.array([w * 1e3 for w in WL]) * u.nm
    r = f(wl, c.q(T, "K"), c.arr([e] * 3))
    want = [e * 1.191042768e8 / w ** 5 * c.div(1.0, c.exp(c.div(14387.7516, w * T)) - 1.0) for w in WL]
    c.eq("planck", r.data, c.q(want, "W/(m2 um sr)"))


HARNESSES = [
    H(chain, "1..4 elements, 0 or 1 in the common optics (whose name an element of the channel may repeat), three temperatures or none, any emissivity and transmission, 3 wavelengths"),
    H(spectral, "2 tabulated elements, 3-row tables of any values"),
    H(blackbody, "any temperature in [30,400] K, or [1.5,20] K in the far infrared (exp uninterpreted), 3 wavelengths"),
]
