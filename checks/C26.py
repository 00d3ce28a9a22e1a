"""Channel table: band and bins, reported efficiency and transmission."""
from checks.lib import *
from checks.C24 import PRF

N = 7
GRID = logspace(0.5, 3.0, N)


def units(c):
    return c.choice("un", ["um", "nm"] if not c.thorough else ["um", "nm", "m"])


def photometer(c):
    """any band in any length unit: one row, centre, bandwidth and edges"""
    lo, hi = c.real("lo", 0.6, 1.4), c.real("hi", 1.5, 2.8)
    un, vn = units(c), c.choice("vn", ["um", "nm"])
    set_R(c, N)
    stub_psf(c, PRF)
    d = phot_desc(c, wl_min=V(c.scalar_q(lo * u.um.to(un), un)), wl_max=V(c.scalar_q(hi * u.um.to(vn), vn)))
    p = mod("models.instruments").Photometer("P h", d, payload(c, False, 1.0))
    p.build()
    t = p.table
    c.true("name", list(t["chName"]) == ["P h"])
    for k, v in (("LeftBinEdge", lo), ("RightBinEdge", hi), ("Wavelength", 0.5 * (lo + hi)), ("Bandwidth", hi - lo)):
        c.eq(k, u.Quantity(t[k]), c.q([v], "um"))


def reported(c):
    """QE and transmission columns: tabulated values at the bin centres (zero outside the tables), photometer and spectrometer"""
    set_R(c, N)
    stub_psf(c, PRF)
    un = units(c)
    kind = c.choice("kind", ["phot", "spec"])
    qw, tw = c.choice("rows", [([1.2, 1.9, 2.6], [0.4, 1.3, 3.5]), ([1.6, 1.9, 1.95], [0.4, 0.7, 1.1]), ([0.4, 0.9, 1.45], [1.7, 1.9, 3.5])])
    q, t = c.reals("q", 3, 0, 1), c.reals("t", 3, 0, 1)
    e = elem("E1", emissivity=0.0)
    e["data"] = table(c, {"Transmission": t}, tw)
    k = dict(wl_min=V((1.0 * u.um).to(un)), wl_max=V((2.0 * u.um).to(un)), optics={"opticalElement": e})
    I = mod("models.instruments")
    name = "Ch"
    tn = c.choice("table_unit", ["um", "nm"])
    o = c.choice("row_order", [[0, 1, 2], [2, 1, 0]])
    qt = {"datafile": V("q"), "data": table(c, {"Other": [0.5] * 3, "Ch-1": [0.3] * 3, "1Ch": [0.2] * 3, "ch": [0.4] * 3, name: [q[i] for i in o], "Third": [0.1] * 3}, [float(x) for x in (np.array([qw[i] for i in o]) * u.um).to(tn).value], tn)}
    d = phot_desc(c, **k) if kind == "phot" else spec_desc(c, targetR=V(2), **k)
    d["detector"]["qe"] = qt
    ch = (I.Photometer if kind == "phot" else I.Spectrometer)(name, d, payload(c, c.flag("force"), 1.0))
    ch.build()
    w = [float(x) for x in ch.table["Wavelength"].to("um").value]
    tr = [lin(g, tw, t) for g in GRID]
    c.eq("qe", u.Quantity(ch.table["QE"]), c.arr([lin(x, qw, q) for x in w]))
    edge = [x > 2.0 for x in w]
    c.eq("tr", u.Quantity(ch.table["TR"]), c.arr([0.0 if (o and d_forced(ch)) else lin(x, GRID, tr) for x, o in zip(w, edge)]))


def d_forced(ch):
    return ch.payload["optics"]["ForceChannelWlEdge"]["value"]


def constant(c):
    """constant detector efficiency"""
    set_R(c, N)
    stub_psf(c, PRF)
    q = c.real("q", 0, 1)
    d = phot_desc(c)
    d["detector"]["qe"] = V(c.scalar_q(q, ""))
    lu = c.choice("lu", ["um", "nm"])
    lo, hi = c.choice("range", [(0.5, 3.0), (0.5, 1.4), (1.6, 3.0)])
    d["detector"]["wl_min"] = V((lo * u.um).to(lu))
    d["detector"]["cut_off"] = V((hi * u.um).to(lu))
    ch = mod("models.instruments").Photometer("Ch", d, payload(c, False, 1.0))
    ch.build()
    on = lo < 1.5 < hi  # the detector sees nothing out of its range
    c.eq("qe", u.Quantity(ch.table["QE"]), c.arr([q if on else 0.0]))
    c.eq("tr", u.Quantity(ch.table["TR"]), c.arr([1.0 if on else 0.0]))


def details(c):
    """the optical path stored with the channel: tables of transmission, radiance, signal and brightest pixel of every element"""
    set_R(c, N)
    stub_psf(c, PRF)
    t = c.reals("t", 2, 0.01, 1)
    e = [elem("A", transmission=t[0], emissivity=0.5, temperature=500.0), elem("B", transmission=t[1], emissivity=0.2, temperature=400.0)]
    spec = c.flag("spec")
    k = dict(optics={"opticalElement": e[1]})
    I = mod("models.instruments")
    ch = (I.Spectrometer if spec else I.Photometer)("Ch", spec_desc(c, targetR=V(2), **k) if spec else phot_desc(c, **k), payload(c, False, 1.0, e[0]))
    ch.build()
    p = ch.built_instr["optical_path"]
    c.eq("grid", u.Quantity(p["transmission_table"]["Wavelength"]), np.array(GRID) * u.um)
    for n, v in (("A", t[0]), ("B", t[1]), ("total", t[0] * t[1])):
        c.eq("transmission_" + n, u.Quantity(p["transmission_table"][n]), c.arr([v] * N))
    c.eq("radiance_grid", u.Quantity(p["radiance_table"]["Wavelength"]), np.array(GRID) * u.um)
    a = p["radiance_table"]["A"]
    P = mod("utils.exolib").planck
    c.eq("radiance", u.Quantity(a), c.q([0.5 * float(b) * t[1] for b in P(np.array(GRID) * u.um, 500.0 * u.K).to("W/(m2 um sr)").value], "W/(m2 um sr)"))
    sg, mx = p["signal_table"], p["max_signal_per_pixel"]
    c.true("names", set(sg.keys()) == {"A signal", "B signal"} and set(mx.keys()) == {"A", "B"})
    c.eq("signal", u.Quantity(sg["A signal"]) + u.Quantity(sg["B signal"]), u.Quantity(ch.table["instrument_signal"]), scale=1e10)
    c.eq("max", u.Quantity(mx["A"]) + u.Quantity(mx["B"]), u.Quantity(ch.table["instrument_MaxSignal_inPixel"]), scale=1e10)


HARNESSES = [
    H(photometer, "any band, limits each in um or nm"),
    H(reported, "any 3-row QE and transmission tables (in three ranges, not all reaching the bins), photometer and 2-bin spectrometer, limits and tables in um or nm, with and without forced edges"),
    H(details, "two elements of any transmission, photometer and spectrometer"),
    H(constant, "any constant efficiency, three detector ranges in um or nm"),
]
