"""Total transmission of a channel: product of every element, common optics first."""
from checks.lib import *


def paths(c, common, channel, wl):
    P = mod("models.optics.opticalPath").OpticalPath
    a = P(wl=wl, description={"optics": common})
    b = P(wl=wl, description={"optics": channel})
    return a, b


EN = ["M2", "Window", "D1", "B", "A0"]  # not in alphabetical order


def product(c):
    """up to three common and two channel elements, any transmission, some with band edges"""
    n, m = c.int("ncommon", 0, 3), c.int("nchannel", 0, 2)
    wl = np.array([0.6, 1.1, 2.4])
    ts, els = [], []
    for k in range(n + m):
        t = c.real("t%d" % k, 0, 1)
        ty = c.choice("ty%d" % k, ["surface", "optics box", "slit"]) if k == 0 else "filter" if k != 3 else "detector box"
        e = elem(EN[k], ty, transmission=t, **(dict(width=V(40.0 * u.um)["value"]) if ty == "slit" else {}))
        if k == 1:
            e["wl_min"], e["wl_max"] = V(0.8 * u.um), V(2.0 * u.um)
            ts.append([0.0, t, 0.0])
        else:
            ts.append([t] * 3)
        els.append(e)
    com = {"opticalElement": od(*els[:n])} if n != 1 else {"opticalElement": els[0]}
    ch = {"opticalElement": od(*els[n:])} if m != 1 else {"opticalElement": els[n]}
    if n == 0:
        com = {}
    if m == 0:
        ch = {}
    a, b = paths(c, com, ch, wl * u.um)
    b.prepend_optical_elements(a.optical_element_dict)
    names = [x for x in b.optical_element_dict if x != "noElement"]
    c.true("order", names == EN[:n + m])
    T = b.build_transmission_table()
    tot = [1.0] * 3
    for t in ts:
        tot = [x * y for x, y in zip(tot, t)]
    c.eq("total", T["total"], c.arr(tot))
    for k in range(n + m):
        c.eq("element", T[EN[k]], c.arr(ts[k]))
    c.eq("grid", T["Wavelength"], wl * u.um)
    # building the table must not alter the elements
    for k in range(n + m):
        c.eq("element_kept", b.optical_element_dict[EN[k]].transmission, c.arr(ts[k]))


def built(c):
    """the transmission an instrument uses is the product, on the detector's wavelength range"""
    set_R(c, 5)
    stub_psf(c, np.ones((2, 2)) * 0.25)
    t = c.reals("t", 3, 0, 1)
    f, un = c.choice("unit", [(1.0, "um"), (1e3, "nm")])
    xs = [0.45, 1.0, 2.0, 3.2]
    tab = c.reals("x", 4, 0, 1)
    e = elem("C2")
    e["data"] = table(c, {"Transmission": tab, "Emissivity": [0.0] * 4}, xs)
    d = phot_desc(c, optics={"opticalElement": od(elem("C1", transmission=t[1]), e)})
    d["detector"]["wl_min"], d["detector"]["cut_off"] = V(0.5 * f * u.Unit(un)), V(3.0 * f * u.Unit(un))
    force = c.flag("force")
    pl = payload(c, force, els=od(elem("M1", transmission=t[0]), elem("M2", transmission=t[2])))
    ph = mod("models.instruments").Photometer("Phot", d, pl)
    ph.build()
    grid = logspace(0.5, 3.0, 5)
    b = ph.built_instr["transmission_data"]
    c.eq("grid", b["wl_grid"]["value"] * u.Unit(b["wl_grid"]["unit"]), np.array(grid) * u.um)
    want = [t[0] * t[1] * t[2] * lin(w, xs, tab) for w in grid]
    if force:
        want = [v if 1.0 <= w <= 2.0 else 0.0 for v, w in zip(want, grid)]
    c.eq("total", b["data"]["value"], c.arr(want))
    c.eq("table_total", ph.table["TR"], c.arr([lin(1.5, grid, [t[0] * t[1] * t[2] * lin(w, xs, tab) for w in grid])]))


def same_name(c):
    """elements of the same name in the common and the channel optics all count"""
    n = c.int("nc", 1, 2)
    wl = np.array([0.6, 1.1, 2.4])
    t, s, x = c.reals("t", 2, 0, 1), c.real("s", 0, 1), c.real("x", 0, 1)
    com = [elem(k, transmission=v) for k, v in zip(["M1", c.choice("second", ["M2", "M1_1", "M1_2"])], t)][:n]
    ch = [elem("M1", transmission=s)] + ([elem("F", transmission=x)] if c.flag("more") else [])
    one = lambda e: e[0] if len(e) == 1 else od(*e)
    a, b = paths(c, {"opticalElement": one(com)}, {"opticalElement": one(ch)}, wl * u.um)
    b.prepend_optical_elements(a.optical_element_dict)
    T = b.build_transmission_table()
    want = s
    for v in t[:n] + ([x] if len(ch) == 2 else []):
        want = want * v
    c.eq("total", T["total"], c.arr([want] * 3))
    c.true("all_listed", len(b.optical_element_dict) == n + len(ch))


def one_wavelength(c):
    """a path asked for a single wavelength works on the whole detector range"""
    set_R(c, 4)
    lo, hi = c.choice("limits", [(0.5, 3.0), (0.32, 8.1), (1.0, 1.9)])
    un, vn = c.choice("un", ["um", "nm"]), c.choice("vn", ["um", "nm"])
    t = c.real("t", 0, 1)
    p = mod("models.optics.opticalPath").OpticalPath(wl=np.array([1.2]) * u.um, description={
        "optics": {"opticalElement": elem("E", transmission=t)},
        "detector": {"wl_min": V(c.scalar_q(lo * u.um.to(un), un)), "cut_off": V(c.scalar_q(hi * u.um.to(vn), vn))}})
    T = p.build_transmission_table()
    w = u.Quantity(T["Wavelength"]).to("um")
    c.true("size", len(w) == 4)
    c.eq("grid", w, logspace(lo, hi, 4) * u.um, rtol=1e-5)
    c.eq("total", T["total"], c.arr([t] * 4))


HARNESSES = [
    H(product, "0..3 common and 0..2 channel elements, any transmissions, 3 wavelengths"),
    H(one_wavelength, "3 detector ranges, limits in um or nm, any transmission, 4-point grid"),
    H(same_name, "1..2 common and 1..2 channel elements, one name in both"),
    H(built, "photometer with 2 common and 2 channel elements (one tabulated), 5-point grid, detector limits in um or nm"),
]
