"""Zodiacal light: A times the two-blackbody model; where A comes from."""
from checks.lib import *

WL = [0.5, 1.1, 2.0, 4.5, 7.8]


def model(wl):
    return [3.5e-14 * planck(w, 5500.0) + 3.58e-8 * planck(w, 270.0) for w in wl]


def coefficient(c):
    """direction map when asked for and usable, else the factor, else nothing"""
    A, co = c.real("A", 0, 10), c.reals("m", 2, 0, 10)
    mode = c.choice("mode", ["ok", "oserror", "keyerror"])
    d = {"value": "zodiacal"}
    asked = c.choice("map", [None, False, True])
    if asked is not None:
        d["zodiacalMap"] = V(asked)
    fac = c.flag("factor")
    if fac:
        d["zodiacFactor"] = V(A)
    if c.flag("coords"):
        pos = c.choice("pos", [(190.0 * u.deg, 30.0 * u.deg), (190.0 * u.deg, 0.0 * u.deg)])
        use = bool(asked)
    else:
        pos, use = None, False
    with zodi_map(c, [10.0, 200.0], [-20.0, 40.0], co, mode) as (f, calls):
        if mode != "ok" or c.flag("custom"):
            d["custom_map_file"] = V(f)
            m = co[1] if mode == "ok" else None
        else:
            m = PACKAGED[1]
        z = mod("models.foregrounds.zodiacalForeground").ZodiacalFrg(wl=np.array(WL) * u.um, description=d, coordinates=pos)
    want = m if use and m is not None else A if fac else 0.0
    c.eq("radiance", z.radiance.data, c.q([want * m for m in model(WL)], "W/(m2 um sr)"))
    c.eq("grid", z.radiance.wl_grid, c.q(WL, "um"))
    c.true("map_only_if_asked", bool(asked) or not calls)


def grid_units(c):
    """the model does not depend on the length unit of the grid"""
    A = c.real("A", 0, 10)
    un, k = c.choice("un", [("um", 1.0), ("nm", 1e3), ("m", 1e-6)])
    z = mod("models.foregrounds.zodiacalForeground").ZodiacalFrg(
        wl=np.array([w * k for w in WL]) * u.Unit(un), description={"value": "zodiacal", "zodiacFactor": V(A)})
    c.eq("radiance", z.radiance.data, c.q([A * m for m in model(WL)], "W/(m2 um sr)"))


def estimate(c):
    """the task uses the star's position, spans the asked range and keeps the other foregrounds"""
    from collections import OrderedDict
    set_R(c, 5)
    A, co = c.real("A", 0, 10), c.reals("m", 2, 0, 10)
    t = star(c, [1.0, 2.0], [1.0, 1.0])
    pos = c.choice("pos", [None, (12.0, -25.0), (202.0, 36.0), (0.0, -20.0), (200.0, 0.0)])
    if pos is not None:
        au, ak = c.choice("angle", [("deg", 1.0), ("rad", np.pi / 180), ("arcmin", 60.0)])
        t.star.ra, t.star.dec = pos[0] * ak * u.Unit(au), pos[1] * ak * u.Unit(au)
    if c.flag("other"):
        t.foreground = OrderedDict([("sky", 1)])
    else:
        t.foreground = OrderedDict()
    un, k = c.choice("un", [("um", 1.0), ("nm", 1e3)])
    had = list(t.foreground)
    d = {"value": "zodiacal", "zodiacFactor": V(A), "zodiacalMap": V(True)}
    with zodi_map(c, [10.0, 200.0], [-20.0, 40.0], co) as (f, _):
        d["custom_map_file"] = V(f)
        r = mod("tasks.foregroundHandler").EstimateForegrounds()(foregrounds=d, target=t, wl_range=(0.5 * k * u.Unit(un), 8.0 * k * u.Unit(un)))
    g = logspace(0.5, 8.0, 5)
    want = A if pos is None else co[0] if pos[0] < 100 else co[1]
    c.true("same_target", r is t)
    c.true("order", list(r.foreground) == had + ["zodi"])
    c.eq("radiance", r.foreground["zodi"].data, c.q([want * m for m in model(g)], "W/(m2 um sr)"))
    c.eq("grid", r.foreground["zodi"].wl_grid, c.q(g, "um"))


HARNESSES = [
    H(coefficient, "any factor and map coefficients; map asked/not, with/without factor and coordinates, map readable/absent/malformed"),
    H(grid_units, "any factor, three length units"),
    H(estimate, "any factor and map coefficients, 5-point grid"),
]
