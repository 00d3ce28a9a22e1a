"""Spectral bins of a spectrometer tile the band at the required resolution."""
import tempfile

from checks.lib import *

N = 24
PRF = np.array([[0.4, 0.1]])


def spectro(c, lo, hi, targetR, un="um", **k):
    set_R(c, N)
    stub_psf(c, PRF)
    q = lambda v, un: c.scalar_q(v * u.um.to(un), un)
    d = spec_desc(c, wl_min=V(q(lo, un.split("/")[0])), wl_max=V(q(hi, un.split("/")[-1])), **k)
    if targetR is None:
        del d["targetR"]
    else:
        d["targetR"] = targetR
    sp = mod("models.instruments").Spectrometer("Spec", d, payload(c, False, 1.0))
    sp.build()
    return sp


def col(sp, k, un="um"):
    v = sp.table[k].to(un).value
    return [v[i] for i in range(len(v))]


def consistent(c, sp):
    """left/right edges, centre and bandwidth of every row agree; rows are named after the channel"""
    l, r, w, b = (col(sp, k) for k in ("LeftBinEdge", "RightBinEdge", "Wavelength", "Bandwidth"))
    c.true("rows", list(sp.table["chName"]) == ["Spec"] * len(l))
    c.eq("centre", w, [0.5 * (x + y) for x, y in zip(l, r)])
    c.eq("width", b, [y - x for x, y in zip(l, r)], scale=1.0)
    return l, r


def tiles(c, l, r, lo, hi):
    c.eq("first_edge", l[0], lo)
    for k in range(len(l) - 1):
        c.eq("contiguous", l[k + 1], r[k])
    c.true("covers", r[-1] > hi * (1 - 1e-9))
    c.true("last_starts_inside", l[-1] < hi * (1 + 1e-9))


def fixed_band(c):
    """any band, fixed R"""
    lo, hi = c.real("lo", 0.95, 1.1), c.real("hi", 1.6, 2.4)
    R = c.choice("R", [2.0, 3.0, 5.0] if not c.thorough else [1.0, 2.0, 3.0, 4.0, 5.0, 7.0])
    un = c.choice("un", ["um", "nm", "um/nm", "nm/um"])
    sp = spectro(c, lo, hi, V(R if c.flag("bare") else R * u.Unit("")), un, wlSolution=sol(c, ((0.5, 0.0), (3.0, 90.0))))
    l, r = consistent(c, sp)
    tiles(c, l, r, lo, hi)
    for a, b in zip(l, r):
        c.eq("resolution", b, a * (1.0 + 1.0 / R))


def fixed_R(c):
    """any R, fixed band"""
    R = c.real("R", 1.5, 4.0 if not c.thorough else 8.0)
    sp = spectro(c, 1.0, 2.0, V(c.scalar_q(R, "")))
    l, r = consistent(c, sp)
    tiles(c, l, r, 1.0, 2.0)
    for a, b in zip(l, r):
        c.eq("resolution", (b - a) * R, a)


def sol(c, pts, xu="um", wu="um"):
    T = Table()
    T["Wavelength"] = Column((np.array([a for a, _ in pts]) * u.um).to(wu).value, unit=wu)
    T["x"] = Column((np.array([b for _, b in pts]) * u.um).to(xu).value, unit=xu)
    return {"data": T}


def native(c):
    """targetR native or absent: one bin per detector pixel, ascending, each as wide as its pixel"""
    lo, hi = c.real("lo", 0.95, 1.1), c.real("hi", 1.6, 1.9)
    how = c.choice("how", ["native", "absent"])
    down = c.flag("down")
    sp = spectro(c, lo, hi, V("native") if how == "native" else None, wlSolution=sol(c, ((0.9, 108.0 if down else 0.0), (2.1, 0.0 if down else 108.0))))
    l, r = consistent(c, sp)
    step = 18.0 / 90.0  # um of wavelength per pixel
    c.true("bins_per_pixel", len(l) == len(sp.built_instr["wl_pix_center"]))
    for k in range(len(l)):
        c.eq("pixel_width", r[k] - l[k], step)
        if k:
            c.eq("contiguous", l[k], r[k - 1])
    # pixel centres are counted from the limit with the lower coordinate, up to the other limit (excluded)
    cen = [0.5 * (a + b) for a, b in zip(l, r)]
    if down:
        c.eq("start", cen[-1], hi)
        c.true("reaches", cen[0] > lo * (1 - 1e-9))
        c.true("no_gap", cen[0] - step <= lo * (1 + 1e-9))
    else:
        c.eq("start", cen[0], lo)
        c.true("reaches", cen[-1] < hi * (1 + 1e-9))
        c.true("no_gap", cen[-1] + step >= hi * (1 - 1e-9))


def native_curved(c):
    """native bins with a dispersion that changes along the band: each one has the width of its own pixel"""
    down = c.flag("down")
    m = c.choice("m", [1.25, 1.5 + 1.0 / 7, 1.8])
    lo, hi = c.real("lo", 0.95, 1.1), c.real("hi", 1.9, 2.05)
    X = (108.0, 54.0, 0.0) if down else (0.0, 54.0, 108.0)
    W = (0.9, m, 2.1)
    T = Table()
    T["Wavelength"], T["x"] = Column(c.arr(list(W)), unit="um"), Column(np.array(X), unit="um")
    sp = spectro(c, lo, hi, V("native") if c.flag("named") else None, wlSolution={"data": T})
    l, r = consistent(c, sp)

    def f(x):
        # extrapolated beyond the ends
        a, b = ((W[0], X[0]), (W[1], X[1])) if (x > 54.0) == (X[0] > 54.0) else ((W[1], X[1]), (W[2], X[2]))
        return a[0] + (b[0] - a[0]) * (x - a[1]) / (b[1] - a[1])

    def inv(w):
        a, b = ((W[0], X[0]), (W[1], X[1])) if w <= m else ((W[1], X[1]), (W[2], X[2]))
        return a[1] + c.div((b[1] - a[1]) * (w - a[0]), b[0] - a[0])
    p = inv(hi if down else lo)
    end = inv(lo if down else hi)
    want, k = [], 0
    while p + 18.0 * k < end - c.slack:
        x = p + 18.0 * k
        want.append((f(x), abs(f(x + 9.0) - f(x - 9.0))))
        k += 1
    if p + 18.0 * k < end + c.slack:
        c.assume(False)
    if down:
        want.reverse()
    c.true("bins_per_pixel", len(l) == len(want))
    for k, (w, b) in enumerate(want):
        c.eq("pixel_centre", 0.5 * (l[k] + r[k]), w, scale=1.0)
        c.eq("pixel_width", r[k] - l[k], b, scale=1.0)


def variable(c):
    """resolution tabulated against wavelength: each bin is w/R(w) wide (to 0.1 nm) and the last one closes the band"""
    W = [0.8, 1.5, 2.6]
    Rs = c.choice("table", [[3.0, 3.0, 3.0], [2.0, 4.0, 6.0], [5.0, 2.5, 2.0]])
    flat = Rs[0] == Rs[1]
    hi = c.real("hi", 1.7, 2.5)
    lo = c.real("lo", 0.95, 1.05) if flat else 1.0
    un = c.choice("un", ["um", "nm", "nm/um"])
    with tempfile.NamedTemporaryFile("w", suffix=".tsv") as f:
        f.write("W\tR\n" + "".join("%s\t%s\n" % x for x in zip(W, Rs)))
        f.flush()
        sp = spectro(c, lo, hi, {"data": V(f.name)}, un)
    l, r = consistent(c, sp)
    c.eq("first_edge", l[0], lo)
    n = len(l) - 1
    for k in range(n + 1):
        if k < n:
            c.eq("contiguous", l[k + 1], r[k])
        e = l[k] * (1.0 + 1.0 / (3.0 if flat else float(lin(l[k], W, Rs))))
        d = r[k] - e
        if k < n:
            c.true("resolution", d < 6e-5 and d > -6e-5)
            c.true("inside", r[k] < hi)
        elif r[n] > hi:
            c.true("last_resolution", d < 6e-5 and d > -6e-5)
            c.true("last_not_small", hi - l[n] >= 0.5 * (r[n - 1] - l[n - 1]) - 1e-9)
        else:
            c.eq("closes", r[n], hi)
            # stretched by less than half of its own size
            c.true("stretch", hi - e < 0.5 * (e - l[n]) + 1e-3)


def unsupported(c):
    """a targetR with neither value nor data is refused"""
    c.true("refused", raises(KeyError, spectro, c, 1.0, 2.0, {"file": "x"}))


HARNESSES = [
    H(fixed_band, "any band (0.95..1.1 to 1.6..2.4 um), fixed R, limits in um or nm"),
    H(fixed_R, "any R in 1.5..4 (thorough 8), band 1..2 um"),
    H(native, "any band, linear dispersion in both directions, native or missing targetR"),
    H(native_curved, "any band, three dispersions with another slope beyond the middle, both directions, native or missing targetR"),
    H(variable, "three R tables (constant, rising, falling), any upper limit (any lower limit for the constant one), um or nm"),
    H(unsupported, "malformed targetR"),
]
