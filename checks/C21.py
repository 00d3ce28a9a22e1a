"""Noise budget of a channel: shot, dark, read noise, excess, total relative to the star."""
from checks.lib import *
from checks.C19 import target

HR = 1.0 / 60.0  # 1/sqrt(3600 s): sqrt(hr) kept as unit, rate per hour to counts per second


def chan(c, dark, rn, freq=0.0, name="Ch", **k):
    d = {"value": name, "detector": {
        "well_depth": V(c.scalar_q(1e5, "ct")), "f_well_depth": V(c.scalar_q(1.0, "")), "freqNDR": V(freq * u.Hz),
        "dark_current": V(dark), "read_noise": V(rn)}}
    d["detector"].update({a: V(b) for a, b in k.items() if a in ("frame_time", "multiaccumM")})
    if "NoiseX" in k:
        d["NoiseX"] = V(k["NoiseX"])
    if "customNoise" in k:
        d["customNoise"] = k["customNoise"]
    return d


def gain(n):
    n = max(n, 2)
    return 12.0 * (n - 1) / (n * n + n), 6.0 * (n * n + 1) / (5.0 * (n * n + n))


def shot(c, g, rate):
    """noise [ct/s sqrt(hr)] of a count rate over one hour"""
    return c.sqrt(g * rate) * HR


def budget(c):
    """every contribution and their quadratic sum, star signal included"""
    n = 2
    rate = {"star_signal_inAperture": c.reals("s", n, 1, 1e5)}
    extra = c.int("extra", 0, 2)
    odd = c.flag("odd")
    for k in ["instrument_signal", "my signal_signal" if odd else "zodi_signal"][:extra]:
        rate[k] = c.reals(k[0], n, 1e-3, 1e4)
    dark, rn, w, ft = c.real("dark", 0, 100), c.real("rn", 0, 50), c.reals("w", n, 1, 100), c.real("ft", 0.1, 100)
    X = c.choice("X", [None, c.real("x", 0, 2)])
    nr = c.choice("nr", [0, 5])
    cols = {k: (v, "ct/s") for k, v in rate.items()}
    cols["WindowSize"] = (w, "")
    cols["MaxSignal_inPixel"] = ([10.0] * n, "ct/s")
    # brightest pixels are not contributions
    cols["my signal_MaxSignal_inPixel" if odd else "zodi_MaxSignal_inPixel"] = ([7.0] * n, "ct/s")
    t = target(c, cols)
    k = dict(NoiseX=c.scalar_q(X, "")) if X is not None else {}
    if nr:  # 5 reads whatever the frame time
        ft = 5.5
    k["frame_time"] = c.scalar_q(ft, "s")
    d = chan(c, c.scalar_q(dark, "ct/s"), c.scalar_q(rn, "ct"), float(1 if nr else 0), **k)
    if not nr:
        d["detector"]["freqNDR"] = V(0.0 * u.Hz)
    E = mod("tasks.noiseHandler").EstimateNoiseInChannel()
    out = E(target=t, channel=d, payload=None)
    rg, sg = gain(nr)
    un = "ct h(1/2) / s"
    un = (u.ct / u.s * u.hr ** 0.5)
    var = []
    for i in range(n):
        v = [sg * r[i] * HR * HR for r in rate.values()]
        var.append((1.0 + (X if X is not None else 0.0)) * fsum(v) + sg * dark * w[i] * HR * HR + c.div(rg * rn * rn * w[i], ft) * HR * HR)
    for key, r in rate.items():
        c.eq(key, out[key + "_noise"], c.q([shot(c, sg, a) for a in r], un))
    c.eq("dark", out["darkcurrent_noise"], c.q([shot(c, sg, dark * a) for a in w], un), scale=1e-3)
    rd = [c.sqrt(c.div(rg * rn * rn * a, ft)) * HR for a in w]
    c.eq("read", out["read_noise"], c.q(rd, un), scale=1e-3)
    tot = [c.div(c.sqrt(v), s) for v, s in zip(var, rate["star_signal_inAperture"])]
    c.eq("total", out["total_noise"], c.q(tot, u.hr ** 0.5), rtol=1e-5)


def units(c):
    """the same physical detector in other units gives the same noise"""
    n = 2
    s, w = c.reals("s", n, 1, 1e5), c.reals("w", n, 1, 100)
    dark, rn = c.real("dark", 0, 100), c.real("rn", 0, 50)
    du, dk = c.choice("du", [("ct/s", 1.0), ("ct/min", 60.0), ("ct/hr", 3600.0)])
    fu, fk = c.choice("fu", [("s", 1.0), ("min", 1 / 60.0), ("ms", 1e3)])
    su, sk = c.choice("su", [("ct/s", 1.0), ("ct/min", 60.0)])
    # rows of another channel come first
    t = target(c, {"star_signal_inAperture": ([x * sk for x in [4.0] + s], su), "WindowSize": ([30.0] + w, ""), "MaxSignal_inPixel": ([99.0] + [10.0] * n, "ct/s")},
               ["Other"] + ["Ch"] * n)
    d = chan(c, c.scalar_q(dark * dk, du), c.scalar_q(rn, "ct"), 1.0, frame_time=4.5 * fk * u.Unit(fu))
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(target=t, channel=d, payload=None)
    rg, sg = gain(4)
    un = (u.ct / u.s * u.hr ** 0.5)
    c.eq("star", out["star_signal_inAperture_noise"], c.q([shot(c, sg, a) for a in s], un))
    c.eq("dark", out["darkcurrent_noise"], c.q([shot(c, sg, dark * a) for a in w], un), scale=1e-3)
    c.eq("read", out["read_noise"], c.q([shot(c, rg, rn * rn * a / 4.5) for a in w], un), scale=1e-3)
    v = [(sg * (a + dark * b) + rg * rn * rn * b / 4.5) * HR * HR for a, b in zip(s, w)]
    c.eq("total", out["total_noise"], c.q([c.div(c.sqrt(x), a) for x, a in zip(v, s)], u.hr ** 0.5), rtol=1e-5)


def no_star(c):
    """bins without star light have an undefined (nan) relative noise, the others are unaffected"""
    n = 3
    s = c.reals("s", n, 0, 10)
    t = target(c, {"star_signal_inAperture": (s, "ct/s"), "WindowSize": ([2.0] * n, ""), "MaxSignal_inPixel": ([10.0] * n, "ct/s")})
    d = chan(c, 2.0 * u.ct / u.s, 3.0 * u.ct, 0.0, frame_time=10.0 * u.s)
    out = mod("tasks.noiseHandler").EstimateNoiseInChannel()(target=t, channel=d, payload=None)
    tot = [out["total_noise"].value[i] for i in range(n)]
    for i in range(n):
        if s[i] == 0:
            c.true("nan", tot[i] != tot[i])
        else:
            v = (s[i] + 2.0 * 2.0 + 2.0 * 9.0 * 2.0 / 10.0) * HR * HR
            c.eq("total", tot[i], c.div(c.sqrt(v), s[i]), rtol=1e-5)
    c.eq("signal_kept", t.table["star_signal_inAperture"], c.q(s, "ct/s"), scale=1.0)


def recomputed(c):
    """noise estimated again after the light on the target has changed follows the light of now"""
    n = 2
    s, m = c.reals("s", 2 * n, 1, 1e5), c.reals("m", 2 * n, 1, 1e4)
    t = target(c, {"star_signal_inAperture": (s[:n], "ct/s"), "WindowSize": ([2.0] * n, ""), "star_MaxSignal_inPixel": (m[:n], "ct/s")})
    ch = {"Ch": SimpleNamespace(name="Ch", description=chan(c, 2.0 * u.ct / u.s, 3.0 * u.ct, 0.0), payload=None)}
    T = mod("tasks")
    rg, sg = gain(2)
    for k in range(2):
        if k:
            new = QTable()
            new["star_signal_inAperture"], new["star_MaxSignal_inPixel"] = c.q(s[n:], "ct/s"), c.q(m[n:], "ct/s")
            t = T.UpdateTargetTable()(target=t, table=new)
        t = T.EstimateNoise()(target=t, channels=ch)
        a, b = s[k * n:k * n + n], m[k * n:k * n + n]
        ft = c.div(1e5, c.max(b))
        c.eq("brightest", t.table["MaxSignal_inPixel"], c.q(b, "ct/s"), scale=1.0)
        c.eq("frame", t.table["frameTime"], c.q([ft] * n, "s"))
        c.eq("star", t.table["star_signal_inAperture_noise"], c.q([shot(c, sg, x) for x in a], u.ct / u.s * u.hr ** 0.5))


HARNESSES = [
    H(recomputed, "any star rates and brightest pixels of 2 bins, twice"),
    H(budget, "any rates of star and 0..2 backgrounds, windows, dark current, read noise, frame time, excess; 2 rows; 2 or 5 reads"),
    H(units, "any rates and detector numbers, dark current, frame time and signal in other units"),
    H(no_star, "any star rates of 3 bins, zero included"),
]
