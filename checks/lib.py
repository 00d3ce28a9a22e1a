"""Shared helpers of the check modules (oracles are written here, independently of the code)."""
import contextlib
import os
import sys
from types import SimpleNamespace

import numpy as np
import astropy.units as u
from astropy.table import QTable, Table, Column

from symx.runner import H  # noqa: F401


def mod(name):
    """module of the package under test"""
    import importlib
    return importlib.import_module("exorad." + name if name else "exorad")


def fsum(xs):
    s = 0.0
    for x in xs:
        s = s + x
    return s


def mean(xs):
    return fsum(xs) / float(len(xs))


def lin(x, xs, ys, out=0.0):
    """piecewise linear through (xs, ys), xs ascending floats/syms; `out` outside"""
    if x < xs[0] or x > xs[-1]:
        return out
    for k in range(1, len(xs)):
        if x <= xs[k]:
            return ys[k - 1] + (ys[k] - ys[k - 1]) * ((x - xs[k - 1]) / (xs[k] - xs[k - 1]))


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False


def V(v):
    return {"value": v}


def omega(fx, fy=None):
    """solid angle of an elliptical aperture with focal ratios fx, fy (numerical quadrature)"""
    fy = fx if fy is None else fy
    a, b = 0.5 / fx, 0.5 / fy
    n = 4000
    ph = (np.arange(n) + 0.5) * 2 * np.pi / n
    r2 = (a * b) ** 2 / ((b * np.cos(ph)) ** 2 + (a * np.sin(ph)) ** 2)
    return float(np.sum(1.0 - 1.0 / np.sqrt(1.0 + r2)) * 2 * np.pi / n)


HPL, CLI = 6.62607015e-34, 299792458.0
PH = 1e-6 / (HPL * CLI)  # photons per joule per micron of wavelength


def trapz(ys, xs):
    return fsum([(xs[k + 1] - xs[k]) * 0.5 * (ys[k] + ys[k + 1]) for k in range(len(xs) - 1)])


def planck(wl, T):
    """W/m2/sr/um at wl [um] (constants of the package's documented formula)"""
    import math
    return 1.191042768e8 / wl ** 5 / (math.exp(14387.7516 / (wl * T)) - 1.0)


def set_R(c, n):
    P = mod("utils.passVal").PassVal
    c._undo.append((P, "_working_R", P._working_R))
    P._working_R = n


def stub_psf(c, prf, kernel=None, extent=(0, 1, 0, 1)):
    """binnedPSF replaced by a given image (any sampled PSF)"""
    k = np.ones((2, 2)) if kernel is None else kernel
    calls = []

    def f(*a, **kw):
        calls.append((a, kw))
        return (prf(*a, **kw) if callable(prf) else prf), k, extent
    c.patch("exorad.utils.exolib", "binnedPSF", f)
    return calls


def logspace(a, b, n):
    return [float(v) for v in np.logspace(np.log10(a), np.log10(b), n)]


def od(*els):
    from collections import OrderedDict
    return OrderedDict([(e["value"], e) for e in els])


def elem(name, ty="surface", **k):
    d = {"value": name, "type": V(ty)}
    d.update({a: V(b) for a, b in k.items()})
    return d


def phot_desc(c, **k):
    d = dict(wl_min=V(1.0 * u.um), wl_max=V(2.0 * u.um), Fnum_x=V(20.0 * u.Unit("")), Fnum_y=V(30.0 * u.Unit("")),
             aperture={"radius": V(c.scalar_q(2.0, ""))},
             optics={"opticalElement": elem("E1")},
             detector=dict(delta_pix=V(18.0 * u.um), qe=V(c.scalar_q(0.7, "")), wl_min=V(0.5 * u.um), cut_off=V(3.0 * u.um)))
    d.update(k)
    return d


def payload(c, force=False, atel=0.5, els=None):
    o = {"ForceChannelWlEdge": V(force), "Atel": V(c.scalar_q(atel, "m2"))}
    if els is not None:
        o["opticalElement"] = els
    return {"optics": o, "common": {}}


def star(c, wl, flux, **k):
    """target with a given SED"""
    S = mod("models.signal")
    t = mod("models.target").Target()
    t.star = SimpleNamespace(sed=S.Sed(wl if hasattr(wl, "unit") else np.array(wl) * u.um, c.arr(flux)))
    t.name = "t"
    return t


# ---- oracle of the resampling rule (C01/C02), used by the harnesses of later stages
def bin_edges(x):
    m = [0.5 * (a + b) for a, b in zip(x, x[1:])]
    return [x[0] - (m[0] - x[0]) * 0.5] + m + [x[-1] + (x[-1] - m[-1]) * 0.5]


def bin_mean(x, xp, fp):
    e = bin_edges(x)
    out = []
    for k in range(len(x)):
        v = [f for p, f in zip(xp, fp) if p >= e[k] and p < e[k + 1]]
        out.append(mean(v) if v else float("nan"))
    return out



def resample(x, xp, fp):
    """values on grid x of samples fp(xp), concrete grids: per-bin mean if xp is finer, else linear; 0 outside"""
    o = sorted(range(len(xp)), key=lambda k: xp[k])
    xp, fp = [xp[k] for k in o], [fp[k] for k in o]
    near = [p for p in xp if p > 0.9 * min(x) and p < 1.1 * max(x)]
    if len(near) > 1 and max(abs(b - a) for a, b in zip(near, near[1:])) < min(abs(b - a) for a, b in zip(x, x[1:])):
        return [0.0 if isinstance(v, float) and v != v else v for v in bin_mean(x, xp, fp)]
    return [lin(w, xp, fp) for w in x]


def table(c, cols, wl, unit="um", wlname="Wavelength"):
    T = Table()
    T[wlname] = Column(np.array(wl), unit=unit)
    for k, v in cols.items():
        T[k] = c.arr(v)
    return T


def qe_table(c, name, wl, q):
    """detector QE read from a data file"""
    return {"datafile": V("qe%s.csv" % c.uid), "data": table(c, {name: q}, wl)}


def channel_efficiency(c, sed_wl, qwl, q, twl, t, grid):
    """(qe, transmission) on the SED grid: oracle for a QE table and one tabulated element"""
    tr = [lin(w, twl, t) for w in grid]
    return resample(sed_wl, qwl, q), resample(sed_wl, grid, tr)


# ---- spectrometer
def spec_desc(c, wlx=((0.9, 0.0), (2.1, 216.0)), **k):
    """wlx: wavelength solution points (um, um on the detector)"""
    w, x = [float(a) for a, _ in wlx], [float(b) for _, b in wlx]
    T = Table()
    T["Wavelength"] = Column(np.array(w), unit="um")
    T["x"] = Column(np.array(x), unit="um")
    d = dict(wl_min=V(1.0 * u.um), wl_max=V(2.0 * u.um), Fnum_x=V(20.0 * u.Unit("")), Fnum_y=V(30.0 * u.Unit("")),
             targetR=V(4), wlSolution={"data": T}, optics={"opticalElement": elem("E1")},
             detector=dict(delta_pix=V(18.0 * u.um), qe=V(c.scalar_q(0.7, "")), wl_min=V(0.5 * u.um), cut_off=V(3.0 * u.um)))
    d.update(k)
    return d


def pixels(wlx, lo=1.0, hi=2.0, delta=18.0):
    """oracle of the pixel grid: [(wavelength, bandwidth)] in the order of decreasing coordinate"""
    p = sorted(wlx)

    def interp(v, a, b):  # linear with extrapolation
        k = 1
        while k < len(a) - 1 and v > a[k]:
            k += 1
        return b[k - 1] + (b[k] - b[k - 1]) * (v - a[k - 1]) / (a[k] - a[k - 1])
    w, x = [a for a, _ in p], [b for _, b in p]
    q = sorted((b, a) for a, b in p)
    xx, ww = [a for a, _ in q], [b for _, b in q]
    first, last = sorted([interp(lo, w, x), interp(hi, w, x)])
    n = int(np.ceil((last - first) / delta))
    xs = [first + i * delta for i in range(n)][::-1]
    return [(interp(v, xx, ww), abs(interp(v - 0.5 * delta, xx, ww) - interp(v + 0.5 * delta, xx, ww))) for v in xs]


def fixed_bins(lo, hi, R):
    n = int(np.ceil(np.log(hi / lo) / np.log(1 + 1.0 / R)))
    e = [lo * (1 + 1.0 / R) ** k for k in range(n + 1)]
    return e


def spread(v, k):
    """slit image: every pixel receives the k pixels centred on it (numpy 'same' convention)"""
    off = (k - 1) // 2
    n = len(v)
    return [fsum([v[j] for j in range(i + off - k + 1, i + off + 1) if 0 <= j < n]) for i in range(n)]


def grid_of(sp):
    """reported pixel centres/bandwidths and bin edges (floats, um)"""
    b = sp.built_instr
    return ([float(x) for x in b["wl_pix_center"].to("um").value], [float(x) for x in b["pixel_bandwidth"].to("um").value],
            [float(x) for x in sp.table["LeftBinEdge"].to("um").value], [float(x) for x in sp.table["RightBinEdge"].to("um").value])


def slit_signal(c, sp, radiance, qe, sr, area, slit, delta=18.0):
    """(signal, max) per bin of a diffuse radiance [per pixel, reported order] seen through the slit"""
    wl, bw, lo, hi = grid_of(sp)
    px = [r * q * sr * area * w * PH * b for r, q, w, b in zip(radiance, qe, wl, bw)]
    s = spread(px, int(slit / delta))
    win = [float(x) for x in sp.built_instr["window_spatial_width"]]
    sig, mx = [], []
    for a, b, h in zip(lo, hi, win):
        v = [x for x, w in zip(s, wl) if a < w <= b]
        sig.append(fsum(v) * h)
        mx.append(c.max(v))
    return sig, mx


def flux_scale(vals):
    return None


PACKAGED = [1.7, 2.9]  # coefficients of the (stubbed) packaged zodiacal map


def table_files(c, read, hdf5=False):
    """tables read from files by any of astropy's readers: read(name, ...) -> Table"""

    def qread(*a, **k):
        return QTable(read(*a, **k))
    if hdf5:
        c.lib("astropy.io.misc.hdf5", "read_table_hdf5", read)
    else:
        c.lib("astropy.io.ascii", "read", read)
    c.lib(Table, "read", staticmethod(read))
    c.lib(QTable, "read", staticmethod(qread))


class Hdus(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self, *a, **k):
        pass


def fits_files(c, hdus):
    """FITS files: hdus(name) -> list of objects with header and data"""
    def ext(name, a, k, default):
        h = hdus(str(name))
        e = k.get("ext", a[0] if a else default)
        if e is None:
            e = [i for i, x in enumerate(h) if x.data is not None][0]
        return h[int(e)]

    def getdata(name, *a, **k):
        x = ext(name, a, k, None)
        return (x.data, x.header) if k.get("header") else x.data
    c.lib("astropy.io.fits", "open", lambda name, *a, **k: Hdus(hdus(str(name))))
    c.lib("astropy.io.fits", "getdata", getdata)
    c.lib("astropy.io.fits", "getheader", lambda name, *a, **k: ext(name, a, k, 0).header)
    c.lib("astropy.io.fits", "getval", lambda name, key, *a, **k: ext(name, a, k, 0).header[key])


@contextlib.contextmanager
def zodi_map(c, ra, dec, coeff, mode="ok"):
    """a zodiacal map file with the given content (or unreadable, or without the coefficients); any
    other file (the packaged one) has two entries, at 10/-20 and 200/40 degrees"""
    import tempfile
    calls = []
    with tempfile.TemporaryDirectory() as D:
        name = os.path.join(D, "map.hdf5")
        open(name, "w").close()

        def read(f, *a, **k):
            calls.append(str(f))
            T = Table()
            own = str(f) == name
            if own and mode == "oserror":
                raise OSError("no file")
            T["ra_icrs"] = c.arr(ra) if own else np.array([10.0, 200.0])
            T["dec_icrs"] = c.arr(dec) if own else np.array([-20.0, 40.0])
            if not (own and mode == "keyerror"):
                T["zodi_coeff"] = c.arr(coeff) if own else np.array(PACKAGED)
            return T
        table_files(c, read, hdf5=True)
        yield name, calls
