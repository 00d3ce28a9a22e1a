"""Custom noise: added in quadrature to the total, common section then channel section."""
from checks.lib import *
from collections import OrderedDict
from checks.C19 import target
from checks.C21 import chan, HR


def const(name, v):
    return {"value": v, "name": V(name)}


def own_noise(c, name, v, w):
    """a table with the given noise against wavelength, its columns in any order"""
    T = Table()
    T["Wavelength"] = Column(np.array(w), unit="um")
    T[name] = c.arr(v)
    return T[[name, "Wavelength"]] if c.flag("noise_first") else T


def many(*ds):
    return OrderedDict((i, d) for i, d in enumerate(ds)) if len(ds) > 1 else ds[0]


def base(c, n=3):
    s = c.reals("s", n, 1, 1e5)
    cols = {"star_signal_inAperture": (s, "ct/s"), "WindowSize": ([2.0] * n, ""), "MaxSignal_inPixel": ([10.0] * n, "ct/s")}
    var0 = [(x + 2.0 * 2.0 + 2.0 * 9.0 * 2.0 / 10.0) * HR * HR for x in s]
    rel = [c.div(v, x * x) for v, x in zip(var0, s)]
    return cols, rel


DET = (2.0 * u.ct / u.s, 3.0 * u.ct, 0.0)


def constants(c):
    """0..2 common and 0..2 channel contributions of any size [ppm]"""
    cols, rel = base(c)
    a, b = c.reals("a", 2, 0, 1e4), c.reals("b", 2, 0, 1e4)
    na, nb = c.int("na", 0, 2), c.int("nb", 0, 2)
    k = dict(customNoise=many(*[const("ch%d" % i, b[i]) for i in range(nb)])) if nb else {}
    pl = {"common": {}}
    if na:
        pl["common"]["customNoise"] = many(*[const("co%d" % i, a[i]) for i in range(na)])
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, **k), payload=pl)
    add = fsum([x * x * 1e-12 for x in a[:na] + b[:nb]])
    c.eq("total_sq", out["total_noise"] ** 2, c.q([r + add for r in rel], "hr"), rtol=1e-5)
    for i in range(na):
        c.eq("common", out["co%d_noise" % i], c.q([a[i] * 1e-6] * 3, u.hr ** 0.5), scale=1e-6)
    for i in range(nb):
        c.eq("channel", out["ch%d_noise" % i], c.q([b[i] * 1e-6] * 3, u.hr ** 0.5), scale=1e-6)
    c.true("only_these", sum("co" in k or "ch" in k for k in out.keys()) == na + nb)


def tabulated(c):
    """a noise given as function of wavelength (relative, one hour), alone or among others"""
    cols, rel = base(c)
    v = c.reals("v", 4, 0, 1e-2)
    w = [0.5, 1.2, 1.8, 2.6]
    un, f = c.choice("un", [("um", 1.0), ("nm", 1e3)])
    o = c.choice("row_order", [[0, 1, 2, 3], [3, 2, 1, 0]])
    d = {"value": "custom", "data": table(c, {"jit": [v[i] for i in o]}, [w[i] * f for i in o], un)}
    p = c.real("p", 0, 1e4)
    both = c.flag("both")
    where = c.flag("common")
    noise = many(const("gain", p), d) if both else d
    k = {} if where else dict(customNoise=noise)
    pl = {"common": {"customNoise": noise} if where else {}}
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, **k), payload=pl)
    x = [lin(q, w, v) for q in [1.0, 1.5, 2.0]]
    c.eq("column", out["jit_noise"], c.q(x, u.hr ** 0.5), scale=1e-2)
    add = p * p * 1e-12 if both else 0.0
    c.eq("total_sq", out["total_noise"] ** 2, c.q([r + add + y * y for r, y in zip(rel, x)], "hr"), rtol=1e-5)


def in_sequence(c):
    """tabulated and constant contributions in any sequence all count"""
    cols, rel = base(c)
    p, v = c.reals("p", 2, 0, 1e4), c.reals("v", 3, 0, 1e-2)
    w = [0.5, 1.4, 2.6]
    tab = {"value": "custom", "data": own_noise(c, "jit", v, w)}
    seq = c.choice("seq", [["a", "b", "T"], ["a", "T", "b"], ["T", "a", "b"], ["T", "a"]])
    noise = many(*[tab if x == "T" else const(x, p["ab".index(x)]) for x in seq])
    where = c.flag("common")
    k = {} if where else dict(customNoise=noise)
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, **k), payload={"common": {"customNoise": noise} if where else {}})
    x = [lin(q, w, v) for q in [1.0, 1.5, 2.0]]
    add = fsum([p["ab".index(k)] ** 2 * 1e-12 for k in seq if k != "T"])
    c.eq("column", out["jit_noise"], c.q(x, u.hr ** 0.5), scale=1e-2)
    c.eq("total_sq", out["total_noise"] ** 2, c.q([r + add + y * y for r, y in zip(rel, x)], "hr"), rtol=1e-5)


def photometer_table(c):
    """tabulated noise in a channel with a single bin; zero outside the table"""
    cols, rel = base(c, 1)
    v = c.reals("v", 3, 0, 1e-2)
    w = c.choice("w", [[0.5, 0.9, 1.3], [0.5, 0.7, 0.8], [1.2, 1.5, 1.9]])
    un, f = c.choice("un", [("um", 1.0), ("nm", 1e3)])
    o = c.choice("row_order", [[0, 1, 2], [2, 1, 0]])
    d = {"value": "custom", "data": table(c, {"jit": [v[i] for i in o]}, [w[i] * f for i in o], un)}
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, customNoise=d), payload=None)
    x = lin(1.0, w, v)
    c.eq("column", out["jit_noise"], c.q([x], u.hr ** 0.5), scale=1e-2)
    c.eq("total_sq", out["total_noise"] ** 2, c.q([rel[0] + x * x], "hr"), rtol=1e-5)


def finer_table(c):
    """a table finer than the bins is averaged over them"""
    n = c.int("n", 2, 3)
    cols, rel = base(c, n)
    w = [0.83, 0.97, 1.06, 1.19, 1.31, 1.42, 1.57, 1.68, 1.81, 1.93, 2.04, 2.17]
    v = c.reals("v", len(w), 0, 1e-2)
    d = {"value": "custom", "data": table(c, {"jit": v}, w)}
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, customNoise=d), payload=None)
    x = resample([float(q) for q in np.linspace(1.0, 2.0, n)], w, v)
    c.eq("column", out["jit_noise"], c.q(x, u.hr ** 0.5), scale=1e-2)
    c.eq("total_sq", out["total_noise"] ** 2, c.q([r + y * y for r, y in zip(rel, x)], "hr"), rtol=1e-5)


def many_columns(c):
    """every column of a table is a noise of its own"""
    n = c.int("n", 1, 3)
    cols, rel = base(c, n)
    names = ["jit", "gain drift", "x"]
    v = [c.reals(k, 3, 0, 1e-2) for k in "jgx"]
    w = [0.5, 1.4, 2.6]
    T = Table()
    first = c.flag("wl_first")
    if first:
        T["Wavelength"] = Column(np.array(w), unit="um")
    for k, y in zip(names, v):
        T[k] = c.arr(y)
    if not first:
        T["Wavelength"] = Column(np.array(w), unit="um")
    t = target(c, cols)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(
        target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, customNoise={"value": "custom", "data": T}), payload=None)
    x = [[lin(float(q), w, y) for q in np.linspace(1.0, 2.0, n)] for y in v]
    for k, y in zip(names, x):
        c.eq("column", out[k + "_noise"], c.q(y, u.hr ** 0.5), scale=1e-2)
    c.eq("total_sq", out["total_noise"] ** 2, c.q([r + fsum([y[i] * y[i] for y in x]) for i, r in enumerate(rel)], "hr"), rtol=1e-5)


def never_smaller(c):
    """custom noise never lowers the total noise"""
    cols, rel = base(c, 2)
    a = c.real("a", 0, 1e4)
    t = target(c, cols)
    E = mod("tasks.noiseHandler").EstimateNoiseInChannel()
    x = E(target=t, channel=chan(c, *DET, frame_time=10.0 * u.s), payload=None)["total_noise"].value
    y = E(target=t, channel=chan(c, *DET, frame_time=10.0 * u.s, customNoise=const("g", a)), payload=None)["total_noise"].value
    for i in range(2):
        c.true("not_lower", y[i] * y[i] >= x[i] * x[i] * (1 - 1e-9))


HARNESSES = [
    H(constants, "any star rates of 3 bins, 0..2 common and 0..2 channel contributions of any size"),
    H(tabulated, "any 4-row noise table in um or nm, in the common or channel section, alone or with a constant"),
    H(in_sequence, "any 3-row noise table among one or two constants, in any sequence"),
    H(finer_table, "2..3 bins, any values of a 12-row table finer than the bins"),
    H(photometer_table, "one bin, 3-row table covering it or not"),
    H(many_columns, "three noises in one table, 1..3 rows"),
    H(never_smaller, "any star rates of 2 bins and any contribution"),
]
