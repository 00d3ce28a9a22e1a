"""Optical element transmission."""
from checks.lib import *

WL = [0.5, 0.8, 1.1, 1.7, 2.6, 3.9]


def el(desc, wl=WL, unit=u.um):
    return mod("models.optics.opticalElement").OpticalElement(desc, np.array(wl) * unit)


def V(v):
    return {"value": v}


def bounded(c, wl, t, lo, hi):
    return [0.0 if (lo is not None and w < lo) or (hi is not None and w > hi) else t for w in wl]


def constant(c):
    """single keyword, optional bounds anywhere, several element types"""
    t = c.real("t", 0, 1)
    kind, ty, use = c.choice("kind", [("transmission", "filter", False), ("reflectivity", "surface", False),
                                      ("reflectivity", "filter", True), ("transmission", "optics box", True)])
    d = {"value": "D1", "type": V(ty), kind: V(t)}
    if use:
        d["use"] = V(kind)
    lo = hi = None
    if c.flag("has_lo"):
        lo = c.real("lo", 0.1, 5.0)
        d["wl_min"] = V(c.q(lo, "um"))
    if c.flag("has_hi"):
        hi = c.real("hi", 0.1, 5.0)
        d["wl_max"] = V(c.q(hi, "um"))
    c.eq("transmission", el(d).transmission, c.arr(bounded(c, WL, t, lo, hi)))


def bound_units(c):
    """bounds given in another length unit"""
    t = c.real("t", 0, 1)
    un, f = c.choice("unit", [("nm", 1e-3), ("mm", 1e3), ("m", 1e6)])
    lo, hi = c.real("lo", 0.1, 5.0), c.real("hi", 0.1, 5.0)
    for w in WL:
        c.assume(abs(lo - w) > 1e-6 + c.slack)
        c.assume(abs(hi - w) > 1e-6 + c.slack)
    d = {"value": "D1", "type": V("filter"), "transmission": V(t),
         "wl_min": V(c.q(lo / f, un)), "wl_max": V(c.q(hi / f, un))}
    c.eq("transmission", el(d).transmission, c.arr(bounded(c, WL, t, lo, hi)))


def both(c):
    """transmission and reflectivity together: 'use' selects, bounds apply, without 'use' an error"""
    t, r = c.real("t", 0, 1), c.real("r", 0, 1)
    d = {"value": "D1", "type": V("filter"), "transmission": V(t), "reflectivity": V(r)}
    use = c.choice("use", [None, "transmission", "reflectivity"])
    lo = hi = None
    if c.flag("has_lo"):
        lo = c.real("lo", 0.1, 5.0)
        d["wl_min"] = V(c.q(lo, "um"))
    if c.flag("has_hi"):
        hi = c.real("hi", 0.1, 5.0)
        d["wl_max"] = V(c.q(hi, "um"))
    if use is None:
        c.true("ambiguous_rejected", raises(KeyError, el, d))
        return
    d["use"] = V(use)
    c.eq("transmission", el(d).transmission, c.arr(bounded(c, WL, t if use == "transmission" else r, lo, hi)))


def table(c):
    """tabulated values: linear interpolation, zero outside, column selection"""
    order = c.choice("order", [[0, 1, 2, 3], [2, 0, 3, 1]])
    wn = c.choice("wlname", ["Wavelength", "wavelength"])
    f = c.choice("unit", [1.0, 1e3])
    xs = [0.7, 1.0, 1.5, 3.0]
    t, r = c.reals("t", 4, 0, 1), c.reals("r", 4, 0, 1)
    em = c.reals("e", 4, 0, 1)
    cols = c.choice("cols", ["T", "R", "TR"])
    T = Table()
    T[wn] = Column(np.array([xs[k] * f for k in order]), unit="um" if f == 1.0 else "nm")
    if "T" in cols:
        T["Transmission"] = c.arr([t[k] for k in order])
    if "R" in cols:
        T["Reflectivity"] = c.arr([r[k] for k in order])
    T["Emissivity"] = c.arr([em[k] for k in order])
    d = {"value": "D1", "type": V("filter"), "data": T}
    use = c.choice("use", [None, "Transmission", "Reflectivity"])
    if use is not None:
        c.assume(use[0] in cols)
        d["use"] = V(use)
    ys = r if (use == "Reflectivity" or (use is None and cols == "R")) else t
    e = el(d)
    c.eq("transmission", e.transmission, c.arr([lin(w, xs, ys) for w in WL]))
    c.eq("emissivity", e.emissivity, c.arr([lin(w, xs, em) for w in WL]))


def table_bounds(c):
    """tabulated transmission with wl_min/wl_max"""
    xs = [0.4, 1.0, 1.5, 4.0]
    t = c.reals("t", 4, 0, 1)
    T = Table()
    T["Wavelength"] = Column(np.array(xs), unit="um")
    T["Transmission"] = c.arr(t)
    T["Emissivity"] = c.arr([0.1] * 4)
    lo, hi = c.real("lo", 0.1, 5.0), c.real("hi", 0.1, 5.0)
    d = {"value": "D1", "type": V("filter"), "data": T, "wl_min": V(c.q(lo, "um")), "wl_max": V(c.q(hi, "um"))}
    o = [0.0 if w < lo or w > hi else lin(w, xs, t) for w in WL]
    c.eq("transmission", el(d).transmission, c.arr(o))


def missing(c):
    """table without any usable column / custom wavelength column name"""
    t = c.reals("t", 3, 0, 1)
    T = Table()
    T["mywl"] = Column(np.array([0.4, 1.3, 4.0]), unit="um")
    T["Transmission"] = c.arr(t)
    T["Emissivity"] = c.arr(t)
    d = {"value": "D1", "type": V("filter"), "data": T, "wl_col_name": V("mywl")}
    c.eq("named_column", el(d).transmission, c.arr([lin(w, [0.4, 1.3, 4.0], t) for w in WL]))
    del d["wl_col_name"]
    c.true("no_wavelength_column", raises(KeyError, el, d))
    T2 = Table()
    T2["Wavelength"] = Column(np.array([0.4, 1.3, 4.0]), unit="um")
    T2["Emissivity"] = c.arr(t)
    c.true("no_transmission_column", raises(KeyError, el, {"value": "D1", "type": V("filter"), "data": T2}))


def default(c):
    """no transmission given: lossless"""
    d = {"value": "D1", "type": V(c.choice("type", ["surface", "filter", "slit", "optics box", "detector box"]))}
    if c.flag("em"):
        d["emissivity"] = V(c.real("e", 0, 1))
    if c.flag("temp"):
        d["temperature"] = V(c.q(c.real("T", 10, 300), "K"))
    c.eq("transmission", el(d).transmission, c.arr([1.0] * len(WL)))


HARNESSES = [
    H(constant, "6-point grid, any value in [0,1], bounds anywhere in [0.1,5] um in um"),
    H(bound_units, "bounds anywhere in [0.1,5] um expressed in nm, mm or m"),
    H(both, "6-point grid, any values in [0,1], bounds anywhere"),
    H(table, "4-row table (two row orders, two wavelength units, two column names), any values in [0,1]"),
    H(table_bounds, "4-row table, bounds anywhere in [0.1,5] um"),
    H(missing, "3-row table, any values"),
    H(default, "5 element types"),
]
