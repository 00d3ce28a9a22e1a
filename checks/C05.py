"""Optical element emissivity, temperature, position and solid angle."""
from checks.lib import *

WL = [0.5, 0.8, 1.1, 1.7, 2.6]
TYPES = ["surface", "filter", "slit", "optics box", "detector box", "dichroic", "detector window", "optics bench"]


def el(d):
    return mod("models.optics.opticalElement").OpticalElement(d, np.array(WL) * u.um)


def emissivity(c):
    ty = c.choice("type", TYPES)
    d = {"value": "E", "type": V(ty)}
    e = None
    if c.flag("given"):
        e = c.real("e", 0, 1)
        d["emissivity"] = V(e)
    if c.flag("tr"):
        d["transmission"] = V(c.real("t", 0, 1))
        if c.flag("edges"):
            d["wl_min"], d["wl_max"] = V(c.q(0.7, "um")), V(c.q(1.2, "um"))
    want = e if e is not None else 1.0 if ty == "detector box" else 0.0
    c.eq("emissivity", el(d).emissivity, c.arr([want] * len(WL)))


def emissivity_table(c):
    xs = [0.6, 1.0, 2.7]
    em, tr = c.reals("e", 3, 0, 1), c.reals("t", 3, 0, 1)
    name = c.choice("col", ["Emissivity", "emissivity"])
    f, un = c.choice("u", [(1.0, "um"), (1e3, "nm")])
    order = c.choice("order", [[0, 1, 2], [1, 2, 0]])
    T = table(c, {"Transmission": [tr[k] for k in order], name: [em[k] for k in order]}, [xs[k] * f for k in order], un)
    d = {"value": "E", "type": V(c.choice("type", ["surface", "detector box"])), "data": T}
    if c.flag("const"):
        d["emissivity"] = V(0.25)
    c.eq("tabulated", el(d).emissivity, c.arr([lin(w, xs, em) for w in WL]))


def emissivity_missing(c):
    xs = [0.6, 1.0, 2.7]
    tr = c.reals("t", 3, 0, 1)
    d = {"value": "E", "type": V("surface"), "data": table(c, {"Transmission": tr}, xs)}
    c.true("rejected", raises(KeyError, el, d))
    e = c.real("e", 0, 1)
    d["emissivity"] = V(e)
    c.eq("constant_used", el(d).emissivity, c.arr([e] * len(WL)))


def temperature(c):
    d = {"value": "E", "type": V(c.choice("type", ["surface", "detector box"]))}
    c.true("none", el(d).temperature is None)
    t = c.real("T", 1, 400)
    d["temperature"] = V(t)
    c.eq("bare_is_kelvin", el(d).temperature, c.q(t, "K"))
    d["temperature"] = V(c.q(t, "K"))
    c.eq("kelvin", el(d).temperature, c.q(t, "K"))
    d["temperature"] = V(c.q(t * 1e3, "mK"))
    c.eq("millikelvin", el(d).temperature, c.q(t, "K"))


def angle(c):
    ty = c.choice("type", TYPES)
    d = {"value": "E", "type": V(ty)}
    e = el(d)
    c.true("none", e.angle is None)
    c.true("position", e.position == {"detector box": "detector", "optics box": "optics box"}.get(ty, "path"))
    a = c.real("a", 0, 6)
    d["solid_angle"] = V(a)
    c.eq("bare_is_sr", el(d).angle, c.q(a, "sr"))
    d["solid_angle"] = V(c.q(a, "sr"))
    c.eq("sr", el(d).angle, c.q(a, "sr"))
    d["solid_angle"] = V(c.q(a * (180 / np.pi) ** 2, "deg2"))
    c.eq("deg2", el(d).angle, c.q(a, "sr"))


HARNESSES = [
    H(emissivity, "8 element types, any emissivity/transmission in [0,1]"),
    H(emissivity_table, "3-row table, two column names, two wavelength units, two row orders"),
    H(emissivity_missing, "3-row table without emissivity column"),
    H(temperature, "any temperature in [1,400] K in three forms"),
    H(angle, "8 element types, any solid angle in [0,6] sr in three forms"),
]
