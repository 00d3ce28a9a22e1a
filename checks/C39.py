"""Pixel response: image of a point source seen by pixels, from PSF files of every format."""
import os
import tempfile

from checks.lib import *
from checks.lib import pixels as pixel_grid
from symx.h5 import store


def fake_fits(c, files):
    """files: basename -> (image, header)"""
    def hdus(name):
        ima, hdr = files[os.path.basename(name)]
        return [SimpleNamespace(data=ima, header=hdr)]
    fits_files(c, hdus)


def header(ny, nx, step, wl=2.0, step_y=None):
    return dict(CDELT1=step, CDELT2=step_y or step, CRPIX1=nx / 2 + 1, CRPIX2=ny / 2 + 1, NAXIS1=nx, NAXIS2=ny, WAVELEN=wl)


@contextlib.contextmanager
def directory(names, slash=True, beside=()):
    """a directory of files; others are found beside it, in files of similar names"""
    with tempfile.TemporaryDirectory() as d:
        D = os.path.join(d, "psf")
        os.mkdir(D)
        for n in names:
            open(os.path.join(D, n), "w").close()
        for n in beside:
            open(os.path.join(d, n), "w").close()
        yield D + os.sep if slash else D


def weights(c, k):
    """samples seen by a pixel k samples wide: whole ones and half of the remainder at each end"""
    i = int(c.floor(k))
    # a pixel of a whole number of samples is decided by rounding
    c.assume(k - float(i) > c.slack)
    c.assume(float(i) + 1.0 - k > c.slack)
    f = k - float(i)
    return [0.5 * f] + [1.0] * i + [0.5 * f]


def seen(ima, wx, wy):
    """image summed over the pixel placed at each sample ('same' size)"""
    ny, nx = len(ima), len(ima[0])
    oy, ox = (len(wy) - 1) // 2, (len(wx) - 1) // 2
    out = []
    for y in range(ny):
        row = []
        for x in range(nx):
            row.append(fsum([ima[y + oy - j][x + ox - i] * wy[j] * wx[i]
                             for j in range(len(wy)) for i in range(len(wx))
                             if 0 <= y + oy - j < ny and 0 <= x + ox - i < nx]))
        out.append(row)
    return out


def flat(a):
    return [v for r in a for v in r]


def compare(c, got, ima, wx, wy):
    imac, kernel = got[0], got[1]
    c.eq("kernel_area", u.Quantity(kernel.sum()), c.scalar_q(fsum(wx) * fsum(wy), ""))
    c.eq("kernel", u.Quantity(kernel), c.arr([[a * b for a in wx] for b in wy]) if len(wx) and len(wy) else None, scale=1.0)
    c.eq("image", imac, c.arr(seen(ima, wx, wy)), scale=1.0)


def pixels(c, ny, nx):
    p = [c.reals("p%d_" % i, nx, 0.0, 1.0) for i in range(ny)]
    return p, np.array([c.arr(r) for r in p])


def standard(c):
    """one FITS file, any image, F-numbers, pixel size, in any unit"""
    ny, nx = 3, 4
    p, ima = pixels(c, ny, nx)
    step = 0.25
    what = c.choice("what", ["d", "F"])
    fx, fy = (c.real("fx", 10, 40), 20.0) if what == "F" else (20.0, 30.0)
    d = c.real("d", 3.0, 22.0 if not c.thorough else 40.0) if what == "d" else 12.0
    un, du = c.choice("un", ["um", "nm"]), c.choice("du", ["um", "mm"])
    # columns (first FITS axis) and rows sampled alike or not
    step_y = c.choice("step_y", [0.25, 0.4])
    fake_fits(c, {"a.fits": (ima, header(ny, nx, step, step_y=step_y))})
    with directory(["a.fits"]) as D:
        got = mod("utils.exolib").binnedPSF(c.scalar_q(fx, ""), c.scalar_q(fy, ""), c.q([1.5 * u.um.to(un)], un), c.scalar_q(d * u.um.to(du), du), D + "a.fits")
    kx, ky = c.div(d, fx * 1.5 * step), c.div(d, fy * 1.5 * step_y)
    compare(c, got, p, weights(c, kx), weights(c, ky))
    # area imaged, first sample to the end of the last one, around the reference sample
    sx, sy = fx * (1.5 * step), fy * (1.5 * step_y)
    want = [sx * -(nx / 2), sx * (nx / 2), sy * -(ny / 2), sy * (ny / 2)]
    c.eq("extent", [u.Quantity(e).to("um").value.reshape(-1)[0] for e in got[2]], c.arr(want), scale=1.0)


def nearest(c):
    """a directory of files: the one tabulated nearest to the wavelength, whatever the order of the names"""
    L = mod("utils.exolib")
    kind = c.choice("kind", ["standard", "pixel"])
    order = c.choice("order", [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
    un = c.choice("un", ["um", "nm"])
    tab = [1.0, c.real("t", 1.5, 2.5), 3.0]
    w = c.real("w", 0.5, 4.0)
    imas = [np.ones((2, 3)) * (k + 1.0) for k in range(3)]
    files = {"f%d.fits" % n: (imas[k], header(2, 3, 0.25, tab[k])) for n, k in enumerate(order)}
    fake_fits(c, files)
    names = list(files) + ["notes.txt"]
    slash = c.flag("slash")
    files["psf9.fits"] = (np.ones((2, 3)) * 9.0, header(2, 3, 0.25, 2.0))
    dist = [abs(t - w) for t in tab]
    m = c.min(dist)
    with directory(names, slash, ["psf9.fits"]) as D:
        if kind == "standard":
            # pixel of exactly one sample
            F, n = 20.0, 1.0
            d = w * (F * 0.25)
            ima, kern, ext = L.binnedPSF(c.scalar_q(F, ""), c.scalar_q(F, ""), c.q([w * u.um.to(un)], un), c.scalar_q(d, "um"), D)
            got = c.div(u.Quantity(ima)[1, 1].value, u.Quantity(kern).sum().value)
            got = c.div(ima[1, 1].value if hasattr(ima, "unit") else ima[1, 1], 1.0)
        else:
            ima, kern, ext = L.pixel_based_psf(c.q([w * u.um.to(un)], un), 18.0 * u.um, D)
            got = ima[1, 1]
            c.true("whole_pixels", u.Quantity(kern).sum() == 1.0)
    for k in range(3):
        if dist[k] <= m - 1e-9 or (abs(got - (k + 1.0)) < 0.3):
            c.true("nearest", dist[k] <= m + 1e-9)
    c.true("one_of_them", any(abs(got - (k + 1.0)) < 1e-6 for k in range(3)))


def single_pixel(c):
    """an image already sampled on pixels is used as it is"""
    p, ima = pixels(c, 2, 3)
    fake_fits(c, {"a.fits": (ima, header(2, 3, 0.25))})
    with directory(["a.fits"]) as D:
        du = c.choice("du", ["um", "mm"])
        got, kern, ext = mod("utils.exolib").pixel_based_psf(c.q([c.real("w", 0.5, 4)], "um"), (18.0 * u.um).to(du), D + "a.fits")
    c.true("extent", np.allclose([u.Quantity(e).to("um").value.reshape(-1)[0] for e in ext], [-27.0, 27.0, -18.0, 18.0]))
    c.eq("image", got, ima)
    c.eq("kernel", u.Quantity(kern.sum()), c.scalar_q(1.0, ""))


def airy(c):
    """no file: diffraction image of unit energy, pixel of the right size"""
    L = mod("utils.exolib")
    seen_ = {}

    def conv(a, b, *x, **k):
        seen_.update(a=a, mode=k.get("mode", x[0] if x else "full"))
        return a
    for f in ("convolve2d", "convolve", "fftconvolve"):
        c.lib("scipy.signal", f, conv)
    d, un = c.real("d", 2.0, 12.0), c.choice("un", ["um", "nm"])
    got = L.binnedPSF(20.0 * u.Unit(""), 30.0 * u.Unit(""), np.array([(1.5 * u.um).to(un).value]) * u.Unit(un), c.scalar_q(d, "um"), c.choice("f", [None, "/nonexistent/x.fits"]))
    s = 8.0 / 255.0
    wx, wy = weights(c, d / (20.0 * 1.5 * s)), weights(c, d / (30.0 * 1.5 * s))
    c.eq("kernel", u.Quantity(got[1]), c.arr([[a * b for a in wx] for b in wy]), scale=1.0)
    c.true("unit_energy", abs(float(seen_["a"].sum()) - 1.0) < 1e-9)
    a = np.array(seen_["a"], dtype=float)
    c.true("same_size", seen_["mode"] == "same" and a.shape == (256, 256))
    c.true("symmetric", np.allclose(a, a.T) and np.allclose(a, a[::-1]))
    # first dark ring of the Airy pattern at 1.22 lambda F
    prof, x = a[127], np.linspace(-4, 4, 256)
    m = (x > 0.9) & (x < 1.5)
    c.true("dark_ring", abs(float(x[m][np.argmin(prof[m])]) - 1.2197) < 0.05)
    c.true("peak", np.unravel_index(a.argmax(), a.shape) in [(127, 127), (127, 128), (128, 127), (128, 128)])


def paos_file(c, wls, groups):
    """a PAOS file: per wavelength the surfaces of the system, the image on the last one"""
    import h5py
    path = c.enter(store(c))
    with h5py.File(path, "w") as f:
        f.create_group("info")
        for w, g in zip(wls, groups):
            S = f.create_group(str(w))
            for k in ("S01", "S09"):
                s = S.create_group(k)
                for n, v in g.items():
                    s.create_dataset(n, data=v if k == "S09" or n != "amplitude" else np.ones((2, 2)))
    return path


def group(c, tag, n, dx, dy):
    a = [c.reals("a%s%d_" % (tag, i), n, 0.0, 1.0) for i in range(2)]
    return a, dict(amplitude=np.array([c.arr(r) for r in a]), dx=dx * 1e-6, dy=dy * 1e-6, extent=np.array([-1e-5, 1e-5, -2e-5, 2e-5]), fratio=10.0)


def paos(c):
    """PAOS file: tabulated wavelength, or linear in wavelength between (beyond) the nearest two"""
    L = mod("utils.exolib")
    tab = c.choice("tab", [[1.0, 2.0, 3.5], [9.0, 9.5, 10.5]])
    where = c.choice("where", ["in", "above", "below", "exact"])
    if where == "exact":
        w = c.choice("wex", tab)
    else:
        lo, hi = {"in": (tab[0], tab[2] - 0.001), "above": (tab[2] + 0.001, tab[2] + 0.5), "below": (tab[0] - 0.5, tab[0] - 0.001)}[where]
        w = c.real("w_%s_%g" % (where, tab[0]), lo, hi)
    un = c.choice("un", ["um", "nm"])
    order = c.choice("order", [(0, 1, 2), (2, 1, 0)])
    dxs, dys = [8.0, 10.0, 13.0], [9.0, 9.0, 12.0]
    n = 2 if not c.thorough else 3
    A, G = zip(*[group(c, str(k), n, dxs[k], dys[k]) for k in range(3)])
    path = paos_file(c, [tab[k] for k in order], [G[k] for k in order])
    wq = (np.array([w]) * u.um).to(un) if where == "exact" else c.q([w * u.um.to(un)], un)
    got = L.paosPSF(wq, 18.0 * u.um, path)
    I = [[[x * x for x in r] for r in a] for a in A]
    k = 0 if w < tab[1] else 1
    t = (w - tab[k]) / (tab[k + 1] - tab[k])
    mix = lambda a, b: a + (b - a) * t
    ima = [[mix(x, y) for x, y in zip(r, s)] for r, s in zip(I[k], I[k + 1])]
    wx = weights(c, c.div(18.0, mix(dxs[k], dxs[k + 1])))
    wy = weights(c, c.div(18.0, mix(dys[k], dys[k + 1])))
    c.eq("kernel", u.Quantity(got[1]), c.arr([[a * b for a in wx] for b in wy]), scale=1.0)
    c.eq("image", got[0], c.arr(seen(ima, wx, wy)), scale=1.0)


def paos_single(c):
    """one tabulated wavelength: used as it is, other wavelengths refused"""
    L = mod("utils.exolib")
    dx, dy = c.real("dx", 5.0, 20.0), c.real("dy", 5.0, 20.0)
    a, g = group(c, "", 3, dx, dy)
    path = paos_file(c, [2.0], [g])
    if c.flag("other"):
        c.true("refused", raises(ValueError, L.paosPSF, np.array([2.5]) * u.um, 18.0 * u.um, path))
        return
    du = c.choice("du", ["um", "mm"])
    got = L.paosPSF(np.array([2.0]) * u.um, (18.0 * u.um).to(du), path)
    compare(c, got, [[x * x for x in r] for r in a], weights(c, c.div(18.0, dx)), weights(c, c.div(18.0, dy)))


FORMATS = [None, "pixel_based", "paos"]


def responses(c, fmt, wls, F=(20.0, 30.0), d=17.3):
    """three images tabulated at 1.0, 1.55, 2.2 um; returns (path, context, expected (image, response) per wavelength)"""
    tab = [1.0, 1.55, 2.2]
    if fmt == "paos":
        dx = [8.0, 8.5, 9.7]
        A, G = zip(*[group(c, str(k), 2, dx[k], dx[k]) for k in range(3)])
        path = paos_file(c, tab, G)
        I = [[[x * x for x in r] for r in a] for a in A]

        def one(w):
            k = 0 if w < tab[1] else 1
            t = (w - tab[k]) / (tab[k + 1] - tab[k])
            mix = lambda a, b: a + (b - a) * t
            wx = weights(c, d / mix(dx[k], dx[k + 1]))
            return seen([[mix(a, b) for a, b in zip(r, s)] for r, s in zip(I[k], I[k + 1])], wx, wx), wx, wx
        return path, contextlib.nullcontext(path), [one(w) for w in wls]
    P = [pixels(c, 2, 2)] if not c.flag("directory") else None
    if P is None:
        P = []
        for k in range(3):
            p = [[(0.1 + 0.2 * k) * x for x in r] for r in ((1.0, 0.4), (0.3, 0.8))]
            p[0][k % 2] = c.real("p%d" % k, 0.0, 1.0)
            P.append((p, np.array([c.arr(r) for r in p])))
    fake_fits(c, {"f%d.fits" % k: (P[k][1], header(2, 2, 0.25, tab[k])) for k in range(len(P))})

    def one(w):
        p = P[int(np.argmin([abs(t - w) for t in tab]))][0] if len(P) > 1 else P[0][0]
        if fmt == "pixel_based":
            return p, [1.0], [1.0]
        wx, wy = weights(c, d / (F[0] * w * 0.25)), weights(c, d / (F[1] * w * 0.25))
        return seen(p, wx, wy), wx, wy

    @contextlib.contextmanager
    def files():
        with directory(["f%d.fits" % k for k in range(len(P))]) as D:
            yield D if len(P) > 1 else D + "f0.fits"
    return None, files(), [one(w) for w in wls]


def in_photometer(c):
    """the image used by a photometer is the one of its file and format at the centre of the band"""
    fmt = c.choice("fmt", FORMATS)
    un = c.choice("un", ["um", "nm"])
    du = c.choice("du", ["um", "mm"])
    set_R(c, 5)
    d = phot_desc(c, wl_min=V((1.0 * u.um).to(un)), wl_max=V((2.0 * u.um).to(un)))
    d["detector"]["delta_pix"] = V((17.3 * u.um).to(du))
    _, files, want = responses(c, fmt, [1.5])
    with files as f:
        d["PSF"] = dict(V(f), **({"format": V(fmt)} if fmt else {}))
        ph = mod("models.instruments").Photometer("Phot", d, payload(c))
        ph.builder()
    c.eq("image", ph.built_instr["PRF"], c.arr(want[0][0]), scale=1.0)


def in_spectrometer(c):
    """the brightest pixel of a spectrometer comes from the images of its file and format at every wavelength"""
    fmt = c.choice("fmt", FORMATS)
    du = c.choice("du", ["um", "mm"])
    set_R(c, 5)
    wlx = ((0.9, 0.0), (2.1, 216.0))
    d = spec_desc(c, wlx)
    d["detector"]["delta_pix"] = V((17.3 * u.um).to(du))
    wl = [w for w, _ in pixel_grid(wlx, delta=17.3)]
    wls = [float(w) for w in np.linspace(min(wl), max(wl), 10)]
    _, files, want = responses(c, fmt, wls)
    with files as f:
        d["PSF"] = dict(V(f), **({"format": V(fmt)} if fmt else {}))
        sp = mod("models.instruments").Spectrometer("Spec", d, payload(c))
        sp.builder()
    gain = sp.built_instr["gain_prf_data"]["data"]["value"]
    for k, (ima, wx, wy) in enumerate(want):
        cols = [fsum(col) for col in zip(*ima)]
        kern = c.max([fsum(wy) * x for x in wx])
        c.eq("gain", u.Quantity(gain)[k], c.q(c.max(cols) / kern, ""), scale=1.0)


HARNESSES = [
    H(standard, "any 3x4 image; any pixel size or any F-number; wavelength in um/nm, pixel in um/mm"),
    H(nearest, "any wavelength, any tabulated middle wavelength, three name orders, two formats, um/nm"),
    H(single_pixel, "any 2x3 image"),
    H(airy, "any pixel size; image of the diffraction-limited optics evaluated once"),
    H(paos, "any images at three wavelengths, any wavelength inside, above, below, or tabulated"),
    H(paos_single, "any image and sampling"),
    H(in_photometer, "2x2 images, one or three files or a PAOS file; limits in um/nm, pixel in um/mm"),
    H(in_spectrometer, "2x2 images, one or three files or a PAOS file; pixel in um/mm"),
]
