"""Aperture of a photometer in pixels."""
import inspect

from checks.lib import *

N = 5


def build(c, ap, **k):
    set_R(c, N)
    p = mod("models.instruments").Photometer("Ch", phot_desc(c, aperture=ap, **k), payload(c, False, 1.0))
    p.build()
    return p


def compare(c, p, want):
    c.eq("size", u.Quantity(p.built_instr["window_size_px"]), c.arr([want]))
    c.eq("table", u.Quantity(p.table["WindowSize"]), c.arr([want]))


def fn(c, v):
    return V(c.scalar_q(v, ""))


def radius_stub(c, r):
    """aperture search replaced by a given radius; returns the arguments of the calls by name"""
    sig = inspect.signature(mod("utils.exolib").find_aperture_radius)
    got = []

    def f(*a, **k):
        got.append(sig.bind(*a, **k).arguments)
        return r
    c.patch("exorad.utils.exolib", "find_aperture_radius", f)
    return got


def lens(c):
    """any F-numbers, pixel size, units of limits and pixel"""
    fx, fy, d = c.real("fx", 5, 40), c.real("fy", 5, 40), c.real("d", 10, 30)
    lu, du = c.choice("lu", ["um", "nm"]), c.choice("du", ["um", "mm"])
    # F-numbers enter the solid angle too, which is stubbed here (decided in C08)
    c.patch("exorad.utils.exolib", "OmegaPix", lambda *a, **k: 1.0 * u.sr)
    det = dict(delta_pix=V(c.scalar_q(d * u.um.to(du), du)), qe=V(c.scalar_q(0.7, "")), wl_min=V(0.5 * u.um), cut_off=V(3.0 * u.um))
    k = dict(wl_min=V((1.0 * u.um).to(lu)), wl_max=V((2.0 * u.um).to(lu)), Fnum_x=fn(c, fx), Fnum_y=fn(c, fy), detector=det)
    return k, c.div(fx * fy * 2.25, d * d)


def radius(c):
    """aperture given by a radius in units of F lambda, also on the image of a PAOS file"""
    img = np.array([[0.4, 0.1]])
    stub_psf(c, img)
    c.patch("exorad.utils.exolib", "paosPSF", lambda *a, **k: (img, np.ones((2, 2)), (0, 1, 0, 1)))
    k, area = lens(c)
    r = c.real("r", 0.5, 5.0)
    ap = {"radius": fn(c, r)}
    psf = c.choice("psf", [None, "paos", "zfile"])
    if psf:
        k["PSF"] = {"value": "psf%s.h5" % c.uid}
        if psf == "paos":
            k["PSF"]["format"] = V("paos")
    if c.flag("energy_too"):  # used for the star's light only
        ap["EnE"] = fn(c, 0.8)
    p = build(c, ap, **k)
    compare(c, p, r * r * area)


def encircled(c):
    """aperture given by an encircled energy: the radius found on the image of this channel, with its F-numbers and wavelength"""
    img = np.array([[0.4, 0.1]])
    stub_psf(c, img)
    k, area = lens(c)
    r, e = c.real("r", 0.5, 5.0), c.real("e", 0.5, 0.99)
    got = radius_stub(c, r)
    p = build(c, {"EnE": fn(c, e)}, **k)
    c.true("searched", len(got) > 0)
    for a in got:
        c.eq("image", a["ima"], img)
        c.eq("energy", u.Quantity(a["eec"]), c.scalar_q(e, ""))
        c.eq("fx", u.Quantity(a["Fnum_x"]), k["Fnum_x"]["value"])
        c.eq("fy", u.Quantity(a["Fnum_y"]), k["Fnum_y"]["value"])
        c.eq("wl", u.Quantity(a["wavelength"]), c.scalar_q(1.5, "um"))
    compare(c, p, r * r * area * float(np.pi))


def pixel_image(c):
    """an image already sampled on pixels: radius in pixels"""
    img = np.array([[0.4, 0.1]])
    c.patch("exorad.utils.exolib", "pixel_based_psf", lambda *a, **k: (img, np.ones((2, 2)), (0, 1, 0, 1)))
    r, e = c.real("r", 0.5, 5.0), c.real("e", 0.5, 0.99)
    got = radius_stub(c, r)
    psf = {"value": "psf%s.fits" % c.uid, "format": V("pixel_based")}
    if c.flag("ene"):
        p = build(c, {"EnE": fn(c, e)}, PSF=psf)
        c.true("searched", len(got) > 0)
        for a in got:
            c.eq("image", a["ima"], img)
            c.eq("energy", u.Quantity(a["eec"]), c.scalar_q(e, ""))
            for n in ("Fnum_x", "Fnum_y"):  # half axes in pixels
                h = u.Quantity(a[n]) * (a["wavelength"] if hasattr(a["wavelength"], "unit") else a["wavelength"] * u.um)
                c.eq("pixels", u.Quantity(h).reshape(-1), c.q([1.0], "um"))
        compare(c, p, r * r * float(np.pi))
    else:
        p = build(c, {"radius": fn(c, r)}, PSF=psf)
        compare(c, p, r * r)


HARNESSES = [
    H(radius, "any radius, F-numbers and pixel size; limits in um/nm, pixel in um/mm"),
    H(encircled, "any encircled energy, any radius found for it, any F-numbers and pixel size (radius search itself: C40)"),
    H(pixel_image, "any radius on a pixel-sampled image"),
]
