"""Radius enclosing a given fraction of the light of an image."""
import inspect

from checks.lib import *


def search(c):
    """any growth of the encircled energy: the radius is where the (interpolated) curve reaches the requested fraction"""
    L = mod("utils.exolib")
    sig = inspect.signature(L.encircled_energy)
    fx, fy = c.choice("F", [(1.0, 1.0), (1.0, 2.0), (2.0, 1.0)])
    un, wl = c.choice("wl", [("um", 2.0), ("nm", 2000.0), ("um", 1.0)])
    shape = (6, 8)
    n = int(np.ceil(10.0 / (min(fx, fy) * (1.0 if wl == 1.0 else 2.0))))  # radius covering the image
    n = min(n, 5)
    if min(fx, fy) * (1.0 if wl == 1.0 else 2.0) < 2.0:
        shape = (3, 4)
    g = c.reals("g", n, 0.01, 1.0)  # growth per unit radius
    enc = [0.0]
    for x in g:
        enc.append(enc[-1] + x * (1.0 / n))
    e = c.real("e", 0.01, 1.0)
    ima = np.ones(shape)

    def ee(*a, **k):
        b = sig.bind(*a, **k).arguments
        c.true("same_image", b["ima"] is ima)
        c.eq("same_optics", [b["Fnum_x"], b["Fnum_y"]], [fx, fy])
        c.eq("same_wavelength", u.Quantity(b["wavelength"]), c.scalar_q(2.0 if wl != 1.0 else 1.0, "um"))
        i = int(b["r"])
        c.true("integer_radius", b["r"] == i and i >= 1)
        return enc[min(i, n)]
    c.patch("exorad.utils.exolib", "encircled_energy", ee)
    r = L.find_aperture_radius(ima, e, fx, fy, wl * u.Unit(un))
    r = r.item() if hasattr(r, "item") else r
    want = c.min([e, enc[-1]])
    # the curve is increasing: exactly one radius encloses the wanted fraction
    for k in range(n):
        if want <= enc[k + 1]:
            c.eq("radius", (r - k) * (enc[k + 1] - enc[k]), want - enc[k], scale=1.0)
            break
    c.true("positive", r > 0)
    c.true("not_larger_than_image", r <= n + 1e-6)


def refused(c):
    """fractions outside (0, 1] are refused, and nothing is measured"""
    e = c.choice("e", [c.real("neg", -2.0, 0.0), c.real("big", 1.0 + 1e-9, 3.0)])
    L = mod("utils.exolib")
    c.patch("exorad.utils.exolib", "encircled_energy", lambda *a, **k: 0.5)
    c.true("refused", raises(ValueError, L.find_aperture_radius, np.ones((3, 4)), e, 1.0, 1.0, 2.0 * u.um))


def ellipse(c):
    """fraction inside the ellipse with half axes r F lambda (in micron) around the image centre"""
    L = mod("utils.exolib")
    r, fx, fy, w = c.real("r", 0.5, 3), c.real("fx", 1, 20), c.real("fy", 1, 20), c.real("w", 0.5, 5)
    un = c.choice("un", ["um", "nm"])
    ny, nx = c.choice("shape", [(2, 3), (5, 2), (2, 5)])
    s, p = c.real("s", 0.0, 5.0), [c.reals("p%d_" % i, 5, 0.1, 1)[:nx] for i in range(ny)]
    ima = np.array([c.arr(x) for x in p])
    got = {}

    class Ell:
        def __init__(self, positions, a, b, theta=0.0):
            got.update(pos=positions, a=a, b=b, theta=theta)

        def do_photometry(self, data, *a, **k):
            got["data"] = data
            return c.arr([s]), np.array([np.nan])

    def phot(data, apertures, *a, **k):
        got["data"] = data
        T = QTable()
        T["id"], T["xcenter"], T["ycenter"] = [1], [float(nx // 2)], [float(ny // 2)]
        T["aperture_sum"] = c.arr([s])
        return T
    c.lib("photutils.aperture", "EllipticalAperture", Ell)
    c.lib("photutils.aperture", "aperture_photometry", phot)
    e = L.encircled_energy(r, ima, fx, fy, c.scalar_q(w * u.um.to(un), un))
    c.eq("half_axes", [got["a"], got["b"]], c.arr([r * fx * w, r * fy * w]))
    c.true("centre", tuple(got["pos"]) == (nx // 2, ny // 2))
    c.true("not_rotated", got["theta"] == 0.0)
    c.true("image", got["data"] is ima)
    c.eq("fraction", e, c.div(s, fsum([x for row in p for x in row])))


HARNESSES = [
    H(search, "any increasing encircled-energy curve of up to 5 radii, any fraction in (0,1], wavelength in um or nm"),
    H(refused, "any fraction <= 0 or > 1"),
    H(ellipse, "images of 2 x 3, 5 x 2 and 2 x 5 pixels, any radius, F-numbers, wavelength; photometry itself (photutils) replaced by an arbitrary value"),
]
