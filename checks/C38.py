"""Loading a star's spectrum: choice of the source, wavelength grid, metadata, refusals."""
import os
import tempfile

from checks.lib import *
from checks.C37 import RSUN, PC, stub_fits, library, fname, MODELS

N = 6


def target(c, r, d, T=3000.0, **k):
    m = mod("models.target")
    t = m.Target()
    t.star = m.Target()
    t.name = "t"
    a = dict(name="s", M=1.0 * u.M_sun, R=c.scalar_q(r, "R_sun"), D=c.scalar_q(d, "pc"), Teff=T * u.K)
    a.update(k)
    t.star.__dict__.update(a)
    return t


def load(t, source, rng):
    return mod("tasks").LoadSource()(target=t, source=source, wl_range=rng)


def check_grid(c, sed, lo, hi):
    g = sed.wl_grid.to("um").value
    c.true("points", len(g) == N)
    want = [lo * (hi / lo) ** (k / (N - 1.0)) for k in range(N)]
    c.eq("grid", sed.wl_grid, np.array(want) * u.um)
    return [float(x) for x in g]


def ranges(c, lo, hi):
    """the same band given in several ways"""
    how = c.choice("range", ["um", "nm", "mixed", "bare", "swapped", "swapped_bare", "swapped_mixed", "mixed_nm", "swapped_nm"])
    a, b = lo * u.um, hi * u.um
    return {"um": (a, b), "nm": (a.to("nm"), b.to("nm")), "mixed": (a, b.to("nm")), "bare": (lo, hi), "swapped": (b, a),
            "mixed_nm": (a.to("nm"), b), "swapped_nm": (b, a.to("nm")), "swapped_bare": (hi, lo), "swapped_mixed": (b.to("nm"), a)}[how]


def custom_table(c, w, F):
    T = Table()
    T["Wavelength"] = Column(np.array(w), unit="um")
    T["Sed"] = Column(c.arr(F), unit="W m-2 um-1")
    table_files(c, lambda *a, **k: T.copy())


def metadata(c, t, model, table):
    m = table.meta
    c.true("kept", m.get("old") == 5)
    c.true("name", m["starName"] == t.star.name and m["starModel"] == model)
    for k, a in (("starM", "M"), ("starTeff", "Teff"), ("starR", "R"), ("starDistance", "D"), ("starL", "luminosity")):
        c.eq(k, u.Quantity(m[k]), u.Quantity(getattr(t.star, a)))
    c.true("magk", ("starMagK" in m) == hasattr(t.star, "magk"))
    if hasattr(t.star, "magk"):
        c.true("magk_value", m["starMagK"] == t.star.magk)


def custom(c):
    """custom source: any spectrum, radius, distance; band in nine forms; only R and D are needed"""
    set_R(c, N)
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    w, F = [0.8, 1.3, 2.2, 3.6, 5.2], c.reals("f", 5, 0.1, 5)
    custom_table(c, w, F)
    t = target(c, r, d)
    if c.flag("bare_star"):
        t.star.M = t.star.Teff = None
    lo, hi = 1.0, 4.0
    word = c.choice("word", ["custom", "Custom"])
    out, sed = load(t, {"value": word, "CustomSed": V("f%s.csv" % c.uid)}, ranges(c, lo, hi))
    c.true("same_target", out is t and t.star.sed is sed)
    g = check_grid(c, sed, lo, hi)
    dil = c.div(r * r * (RSUN / PC) ** 2, d * d)
    c.eq("flux", u.Quantity(sed.data).reshape(-1), c.arr([x * dil for x in resample(g, w, F)]) * u.Unit("W m-2 um-1"))
    L = trapz(F, w) * (4 * np.pi * RSUN ** 2) * (r * r)
    c.eq("luminosity", u.Quantity(t.star.luminosity).to("W"), c.scalar_q(L, "W"))


def meta(c):
    """table of the target gets the star's own parameters"""
    set_R(c, N)
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    custom_table(c, [0.8, 2.2, 5.2], c.reals("f", 3, 0.1, 5))
    t = target(c, r, d)
    mag = c.choice("mag", [None, 5.5, 0.0])
    if mag is not None:
        t.star.magk = mag
    t.table = QTable()
    t.table["x"] = [1.0]
    t.table.meta["old"] = 5
    if c.flag("loaded_before"):
        t.table.meta.update(starName="other", starModel="Planck", starM=7.0 * u.kg, starR=3.0 * u.m, starL=1.0 * u.W)
    load(t, {"value": "custom", "CustomSed": V("f%s.csv" % c.uid)}, (1.0 * u.um, 4.0 * u.um))
    metadata(c, t, "Custom", t.table)


def averaged_planck(g, lo, hi, T):
    x = np.linspace(lo, hi, 10000)
    f = [planck(v, T) for v in x]
    e = bin_edges(g)
    return [float(np.mean([b for a, b in zip(x, f) if e[k] <= a < e[k + 1]])) for k in range(N)]


def blackbody(c):
    """Planck by name, in any case, as a string, or for anything unknown"""
    import astropy.constants  # noqa: F401
    set_R(c, N)
    r, d = c.real("r", 0.1, 3), c.real("d", 1, 100)
    src = c.choice("src", [{"value": "Planck"}, "planck", {"value": "nonsense"}])
    T = c.choice("T", [3000.0, 6000.0])
    t = target(c, r, d, T)
    lo, hi = 1.0, 4.0
    _, sed = load(t, src, (lo * u.um, hi * u.um))
    g = check_grid(c, sed, lo, hi)
    # the 1e4-sample black body averaged in each bin (C01)
    want = averaged_planck(g, lo, hi, T)
    dil = c.div(r * r * (np.pi * (RSUN / PC) ** 2), d * d)
    c.eq("flux", u.Quantity(sed.data).reshape(-1), c.arr([v * dil for v in want]) * u.Unit("W m-2 um-1"))
    c.true("model", t.star.model == "Planck")


def phoenix(c):
    """model library: model of the star's temperature and gravity, black body outside the range of the library"""
    set_R(c, N)
    T = c.real("T", 2900.0, 3720.0)
    rt = c.floor(c.div(T, 100.0) + 0.5)
    c.assume(abs(c.div(T, 100.0) - rt) < 0.499999 - c.slack)
    w, F = [0.8, 1.3, 2.2, 3.6, 5.2, 6.0], [1.0, 2.0, 1.5, 3.0, 2.0, 1.0]
    stub_fits(c, (w, "um", None), "W m-2 um-1", F)
    src = {"value": c.choice("word", ["phoenix", "Phoenix"])}
    env = c.flag("env")
    old = os.environ.pop("PHOENIX_PATH", None)
    names = [fname(*m) for m in MODELS]
    # M = R = 1: log g = 4.44; nearest gravity 4.5
    real = mod("utils.exolib").planck
    temps = []

    def black(wl, T):
        temps.append(T)
        return real(wl, 3000.0 * u.K)
    c.patch("exorad.utils.exolib", "planck", black)
    r = c.choice("r", [1.0, 0.5])
    try:
        with library(names) as p:
            if env:
                os.environ["PHOENIX_PATH"] = p
            else:
                src["StellarModels"] = V(p)
                if c.flag("env_too"):
                    os.environ["PHOENIX_PATH"] = os.path.join(p, "elsewhere")
            t = target(c, r, 10.0, M=r * r * u.M_sun)
            t.star.Teff = c.scalar_q(T, "K")
            _, sed = load(t, src, (1.0 * u.um, 4.0 * u.um))
    finally:
        os.environ.pop("PHOENIX_PATH", None)
        if old is not None:
            os.environ["PHOENIX_PATH"] = old
    g = check_grid(c, sed, 1.0, 4.0)
    dil = (r * RSUN / (10 * PC)) ** 2
    if rt < 29.5 or rt > 36.5:
        c.true("fallback", t.star.model == "Planck")
        c.eq("temperature", u.Quantity(temps[-1]).to("K"), c.scalar_q(T, "K"))
        c.eq("flux", u.Quantity(sed.data).reshape(-1), np.array([v * dil * np.pi for v in averaged_planck(g, 1.0, 4.0, 3000.0)]) * u.Unit("W m-2 um-1"), scale=1e-12)
        return
    c.eq("flux", u.Quantity(sed.data).reshape(-1), c.arr([v * dil for v in resample(g, w[:-1], F[:-1])]) * u.Unit("W m-2 um-1"), scale=1e-12)
    lg = 4.438067
    dist = [abs(float(m[0]) - rt) + abs(m[1] - lg) + m[2] for m in MODELS]
    c.true("model", dist[names.index(t.star.model)] <= c.min(dist) + 1e-4)


def refused(c):
    """incomplete stars and missing libraries are refused"""
    set_R(c, N)
    r = c.real("r", 0.1, 3)
    k = c.choice("k", ["D", "R", "Teff", "M"])
    word = c.choice("w", ["planck", "phoenix", "other"] + ([] if k in ("Teff", "M") else []))
    t = target(c, r, 10.0)
    setattr(t.star, k, c.choice("bad", [None, 1.0]))
    c.true("incomplete", raises(AttributeError, load, t, {"value": word}, (1.0, 4.0)))
    if k in ("D", "R"):
        custom_table(c, [0.8, 2.2, 5.2], [1.0, 1.0, 1.0])
        c.true("incomplete_custom", raises(AttributeError, load, t, {"value": "custom", "CustomSed": V("f")}, (1.0, 4.0)))
    old = os.environ.pop("PHOENIX_PATH", None)
    try:
        t = target(c, r, 10.0)
        c.true("no_path", raises(OSError, load, t, {"value": "phoenix"}, (1.0, 4.0)))
        with library(["readme.txt"]) as p:
            c.true("no_models", raises(OSError, load, t, {"value": "phoenix", "StellarModels": V(p)}, (1.0, 4.0)))
        c.true("bad_path", raises(OSError, load, t, {"value": "phoenix", "StellarModels": V("/nonexistent/x")}, (1.0, 4.0)))
    finally:
        if old is not None:
            os.environ["PHOENIX_PATH"] = old


HARNESSES = [
    H(custom, "any 5-sample spectrum, radius, distance; nine forms of the band, stars with and without mass and temperature"),
    H(meta, "any radius and distance, with and without magnitude"),
    H(blackbody, "any radius and distance, two temperatures, four ways to ask for it"),
    H(phoenix, "any temperature 2900..3720 K, five models, path from the description or the environment"),
    H(refused, "each missing or unit-less parameter, each source"),
]
