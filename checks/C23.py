"""Channels do not influence one another."""
from checks.lib import *
from checks.C19 import target
from checks.C21 import chan, gain, HR

NAMES = ["A", "B", "Long name"]


def rows(c, p, n):
    """rates of one channel"""
    return dict(star_signal_inAperture=c.reals(p + "s", n, 1, 1e4), instrument_signal=c.reals(p + "i", n, 0, 1e3),
                WindowSize=c.reals(p + "w", n, 1, 50), instrument_MaxSignal_inPixel=c.reals(p + "m", n, 1, 1e4),
                star_MaxSignal_inPixel=[2.0] * n)


UN = dict(star_signal_inAperture="ct/s", instrument_signal="ct/s", WindowSize="", instrument_MaxSignal_inPixel="ct/s", star_MaxSignal_inPixel="ct/s")


def noise(c):
    """the noise of a channel follows from its own rows and its own detector; channels in any order"""
    n = {"A": 2, "B": 1, "Long name": 1}
    names = c.choice("names", [["A", "B"], ["B", "A"], ["A", "B", "Long name"]])
    R = {k: rows(c, k[0], n[k]) for k in names}
    det = {k: dict(dark=c.real(k[0] + "d", 0, 10), rn=c.real(k[0] + "r", 0, 10)) for k in names}
    custom = c.flag("custom")
    cn = c.real("cn", 0, 100)
    cols = {k: ([x for ch in names for x in R[ch][k]], UN[k]) for k in UN}
    t = target(c, cols, [ch for ch in names for _ in range(n[ch])])
    chans = {}
    for ch in names:
        d = chan(c, c.scalar_q(det[ch]["dark"], "ct/s"), c.scalar_q(det[ch]["rn"], "ct"), 0.0, name=ch)
        if custom and ch == "B":
            d["customNoise"] = {"value": cn, "name": V("jitter")}
        chans[ch] = SimpleNamespace(name=ch, description=d, payload=None)
    out = mod("tasks").EstimateNoise()(target=t, channels=chans).table
    if c.flag("again"):
        out = mod("tasks").EstimateNoise()(target=t, channels=chans).table
    c.true("rows", list(out["chName"]) == [ch for ch in names for _ in range(n[ch])])
    c.true("one_row_each", len(out) == sum(n[ch] for ch in names))
    rg, sg = gain(2)
    k = 0
    for ch in names:
        r = R[ch]
        mx = [a + b for a, b in zip(r["instrument_MaxSignal_inPixel"], r["star_MaxSignal_inPixel"])]
        sat = [c.div(1e5, m) for m in mx]
        ft = c.min(sat)
        for i in range(n[ch]):
            c.eq("saturation", out["saturation_time"].to("s").value[k], sat[i])
            c.eq("frame", out["frameTime"].to("s").value[k], ft)
            v = (sg * (r["star_signal_inAperture"][i] + r["instrument_signal"][i] + det[ch]["dark"] * r["WindowSize"][i])
                 + c.div(rg * det[ch]["rn"] * det[ch]["rn"] * r["WindowSize"][i], ft)) * HR * HR
            rel = c.div(v, r["star_signal_inAperture"][i] * r["star_signal_inAperture"][i])
            j = cn * 1e-6 if custom and ch == "B" else 0.0
            c.eq("total", out["total_noise"].to(u.hr ** 0.5).value[k], c.sqrt(rel + j * j), rtol=1e-5)
            if custom and "B" in names:
                c.eq("custom", u.Quantity(out["jitter_noise"]).to(u.hr ** 0.5).value[k], j, scale=1e-6)
            k += 1


def two(c, n, q, t, names):
    """photometers in the given order, each with its own efficiency and element"""
    d = {}
    stub_psf(c, np.array([[0.5]]))
    for i, ch in enumerate(names):
        k = "PQ".index(ch)
        de = phot_desc(c, wl_min=V((1.0 + k * 0.4) * u.um), wl_max=V((2.0 + 0.4 * k) * u.um), optics={"opticalElement": elem("E" + ch, transmission=t[k])})
        de["value"] = ch
        de["detector"]["qe"] = V(c.scalar_q(q[k], ""))
        p = mod("models.instruments").Photometer(ch, de, payload(c, True, 1.0))
        p.build()
        d[ch] = p
    return d


def light(c):
    """star and foreground light of every channel of a payload, in any order, and the merged table"""
    N = 5
    set_R(c, N)
    g = logspace(0.5, 3.0, N)
    names = c.choice("names", [["P", "Q"], ["Q", "P"], ["P"], ["Q"]])
    q, tr = c.reals("q", 2, 0, 1), c.reals("t", 2, 0, 1)
    f, r = c.reals("f", N, 0, 10), c.reals("r", N, 0, 5)
    ch = two(c, N, q, tr, names)
    before = {x: (list(ch[x].table.colnames), len(ch[x].table)) for x in names}
    t = star(c, g, f)
    T = mod("tasks")
    t = T.PrepareTarget()(target=t, channels=ch)
    c.true("rows", list(t.table["chName"]) == names)
    S = mod("models.signal")
    t.foreground = {"sky": S.Radiance(np.array(g) * u.um, c.arr(r))}
    t = T.PropagateForegroundLight()(target=t, channels=ch)
    t = T.PropagateTargetLight()(target=t, channels=ch)
    for i, x in enumerate(names):
        k = "PQ".index(x)
        lo, hi = 1.0 + 0.4 * k, 2.0 + 0.4 * k
        inb = [1.0 if lo <= w <= hi else 0.0 for w in g]
        c.eq("star", t.table["starSignal"].to("ct/s").value[i], trapz([a * q[k] * tr[k] * b * w * PH for a, b, w in zip(f, inb, g)], g), scale=1e17)
        px = trapz([a * q[k] * tr[k] * b * w * PH * omega(20.0, 30.0) * 18e-6 ** 2 for a, b, w in zip(r, inb, g)], g)
        c.eq("sky", t.table["sky_MaxSignal_inPixel"].to("ct/s").value[i], px)
        c.eq("band", [float(t.table["LeftBinEdge"].to("um").value[i]), float(t.table["RightBinEdge"].to("um").value[i])], [lo, hi])
        c.true("channel_kept", (list(ch[x].table.colnames), len(ch[x].table)) == before[x])
    c.true("table_rows", len(t.table) == len(names))


HARNESSES = [
    H(noise, "any rates, dark current, read noise of 1..3 channels (1..2 rows) in two orders, with/without a custom noise of one channel"),
    H(light, "any SED, sky radiance, efficiencies and transmissions of one or two photometers in any order; 5-point grids"),
]
