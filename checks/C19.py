"""Saturation: brightest pixel of all contributions, saturation time, frame time."""
from checks.lib import *


def target(c, cols, names=None, n=None):
    t = mod("models.target").Target()
    t.name = "t"
    T = QTable()
    n = n or len(next(iter(cols.values()))[0])
    T["chName"] = names or ["Ch"] * n
    T["Wavelength"] = np.linspace(1.0, 2.0, n) * u.um
    for k, (v, un) in cols.items():
        T[k] = c.q(v, un)
    t.table = T
    return t


def brightest(c):
    """MaxSignal_inPixel is the sum of the brightest-pixel columns of every contribution"""
    n = 3
    names = ["star", "instrument", "zodi_high", "Max filter", "filter signal"]
    k = c.int("k", 1, 5)
    v = {x: c.reals(x[0], n, 0, 1e5) for x in names[:k]}
    s = c.reals("sig", n, 0, 1e5)
    cols = {}
    for x in names[:k]:
        cols["%s_MaxSignal_inPixel" % x] = (v[x], "ct/s")
        cols["%s_signal" % x] = (s, "ct/s")
    t = target(c, cols, ["A", "B", "B"])
    r = mod("tasks").EstimateMaxSignal()(target=t)
    if c.flag("again"):
        r = mod("tasks").EstimateMaxSignal()(target=r)
    c.eq("sum", r.table["MaxSignal_inPixel"], c.q([fsum([v[x][i] for x in names[:k]]) for i in range(n)], "ct/s"))
    c.eq("kept", r.table["star_MaxSignal_inPixel"], c.q(v["star"], "ct/s"))
    c.true("rows", list(r.table["chName"]) == ["A", "B", "B"])


def times(c):
    """saturation time = well depth / brightest pixel; frame time imposed, or the fraction of the shortest"""
    n = 3
    mx, other = c.reals("mx", n, 1, 1e5), c.reals("o", 2, 1, 1e6)
    wd, f, ft = c.real("wd", 1e3, 1e6), c.real("f", 0.1, 1), c.real("ft", 0.1, 100)
    un, k = c.choice("un", [("ct/s", 1.0), ("ct/min", 60.0)])
    t = target(c, {"MaxSignal_inPixel": ([k * x for x in [other[0]] + mx + [other[1]]], un)}, ["Z"] + ["Ch"] * n + ["Y"])
    det = {"well_depth": V(c.scalar_q(wd, "ct")), "f_well_depth": V(c.scalar_q(f, ""))}
    imposed = c.choice("imposed", [None, ("s", 1.0), ("min", 1 / 60.0)])
    if imposed:
        det["frame_time"] = V(c.scalar_q(ft * imposed[1], imposed[0]))
    out = mod("models.noise").frame_time(t, {"value": "Ch", "detector": det}, QTable())
    sat = [c.div(wd, x) for x in mx]
    c.eq("saturation", out["saturation_time"], c.q(sat, "s"))
    if imposed:
        c.eq("frame", out["frameTime"], c.q([ft] * n, "s"))
    else:
        c.eq("frame", out["frameTime"], c.q([f * c.min(sat)] * n, "s"))


def never_saturates(c):
    """with f_well_depth <= 1 no pixel of the channel fills its well within a frame"""
    n = 3
    mx = c.reals("mx", n, 1, 1e5)
    wd, f = c.real("wd", 1e3, 1e6), c.real("f", 0.1, 1)
    t = target(c, {"MaxSignal_inPixel": (mx, "ct/s")})
    det = {"well_depth": V(c.scalar_q(wd, "ct")), "f_well_depth": V(c.scalar_q(f, ""))}
    out = mod("models.noise").frame_time(t, {"value": "Ch", "detector": det}, QTable())
    ft, st = out["frameTime"].to("s").value, out["saturation_time"].to("s").value
    for i in range(n):
        c.true("not_longer", ft[i] <= st[i] * (1 + 1e-9))
        c.true("positive", ft[i] > 0)


HARNESSES = [
    H(brightest, "1..5 contributions, 3 rows of any value"),
    H(times, "any brightest pixels of 3 bins and of 2 rows of other channels, well depth, fraction, imposed frame time"),
    H(never_saturates, "any brightest pixels of 3 bins, well depth, fraction"),
]
