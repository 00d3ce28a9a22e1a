"""Whole pipeline: payload file and target list in, one observed table per target out."""
import os
import tempfile

from checks.lib import *
from checks.C21 import gain, HR
from symx.h5 import store

N = 5
RSUN, PC = float(u.R_sun.to("m")), float(u.pc.to("m"))
STARS = [("Alpha", 1.0, 5000.0, 1.0, 20.0), ("Beta b", 1.5, 6000.0, 1.2, 10.0)]
LO, HI = 0.5, 3.0

XML = """<root>
 <common>
  <working_R>%(R)d</working_R>
  <sourceSpectrum>planck</sourceSpectrum>
  <wl_min unit="micron">0.5</wl_min><wl_max unit="%(wu)s">%(hi)s</wl_max>
  %(foreground)s
 </common>
 <optics>
  %(force)s
  <Atel unit="m**2">%(atel)s</Atel>
  <opticalElement>M1
   <type>surface</type><temperature unit="K">300</temperature><emissivity>%(e)s</emissivity><transmission>%(t0)s</transmission>
  </opticalElement>
 </optics>
 %(channels)s
</root>"""

CH = """<channel>%(name)s
  <channelClass>%(cls)s</channelClass>
  <wl_min unit="micron">%(lo)s</wl_min><wl_max unit="micron">%(hi)s</wl_max>
  <Fnum_x unit="">20</Fnum_x><Fnum_y unit="">30</Fnum_y><NoiseX unit="">%(nx)s</NoiseX>
  %(more)s
  <optics>%(els)s</optics>
  <detector>
   <wl_min unit="micron">0.5</wl_min><cut_off unit="micron">3.0</cut_off>
   <delta_pix unit="micron">18</delta_pix><qe unit="">%(qe)s</qe>
   <well_depth unit="count">100000</well_depth><f_well_depth>1.0</f_well_depth>
   <dark_current unit="count/second">%(dark)s</dark_current><read_noise unit="count">%(rn)s</read_noise>
   <frame_time unit="s">5.0</frame_time><freqNDR unit="Hz">0.1</freqNDR>
  </detector>
 </channel>"""

EL = "<opticalElement>%s<type>surface</type>%s<transmission>%s</transmission></opticalElement>"
EMIT = "<temperature unit='K'>280</temperature><emissivity>0.1</emissivity>"


def files(c, d, v, kinds, frg, els=("M3",), um="micron", force=None):
    w = ["# %ECSV 0.9", "# ---", "# delimiter: \",\"", "# datatype:", "# - {name: Wavelength, unit: micron, datatype: float64}", "# - {name: x, unit: micron, datatype: float64}",
         "Wavelength,x", "0.9,0.0", "2.1,216.0"]
    with open(os.path.join(d, "sol.csv"), "w") as f:
        f.write("\n".join(w) + "\n")
    ch = []
    for i, k in enumerate(kinds):
        p = k == "phot"
        x = [EL % (n, EMIT if j == 0 else "", c.literal(v["t"][1])) for j, n in enumerate(els)] if i == 0 else [EL % ("Other", EMIT, "0.8")]
        ch.append(CH % dict(name="Ch %s" % k, cls="Photometer" if p else "Spectrometer", lo="1.0", hi="2.0", nx=c.literal(v["nx"]),
                            more="<aperture><radius unit=''>2</radius></aperture>" if p else
                            "<targetR>2</targetR><wlSolution><datafile>%s</datafile></wlSolution>" % os.path.join(d, "sol.csv"),
                            els="".join(x), qe=c.literal(v["q"]), dark=c.literal(v["dark"]), rn=c.literal(v["rn"])))
    xml = XML % dict(R=N, wu=um, hi="3.0" if um == "micron" else "3000", atel=c.literal(v["atel"]), force="" if force is None else "<ForceChannelWlEdge>%s</ForceChannelWlEdge>" % force, e=c.literal(v["e"]), t0=c.literal(v["t"][0]),
                     foreground="<foreground>zodiacal<zodiacFactor>%s</zodiacFactor></foreground>" % c.literal(v["zf"]) if frg else "", channels="\n ".join(ch))
    a, b = os.path.join(d, "p.xml"), os.path.join(d, "list.csv")
    with open(a, "w") as f:
        f.write(xml)
    with open(b, "w") as f:
        f.write("star name,star M [M_sun],star Teff [K],star R [R_sun],star D [pc]\n" + "\n".join(",".join(str(x) for x in s) for s in STARS) + "\n")
    return a, b


def values(c):
    return dict(t=c.reals("t", 2, 0.1, 1), q=c.real("q", 0.1, 1), dark=c.real("dark", 0, 20), rn=c.real("rn", 0, 30), atel=c.real("atel", 0.1, 2), e=c.real("e", 0, 1),
                nx=c.real("nx", 0, 1), zf=c.real("zf", 0, 5))


def run(xml, csv, out, **k):
    with contextlib.redirect_stdout(None):
        mod("exorad").standard_pipeline(options=xml, target_list=csv, output=out, **k)


def results(out):
    import h5py
    with h5py.File(out, "r") as f:
        return {k: mod("output.hdf5").load(f["targets"][k])["table"]["table"] for k in f["targets"].keys()}


@contextlib.contextmanager
def place(c):
    set_R(c, 7)
    stub_psf(c, np.array([[0.4, 0.1]]))
    with store(c) as out, tempfile.TemporaryDirectory() as d:
        yield d, out


def blackbody(T, g):
    """black body of 1e4 samples averaged in the bins of the working grid (C01, C38)"""
    x = np.linspace(LO, HI, 10000)
    f = np.array([planck(v, T) for v in x])
    e = bin_edges(g)
    return [float(f[(x >= e[k]) & (x < e[k + 1])].mean()) for k in range(len(g))]


def budget(c):
    """photometer: counts of star, optics and sky and the noise of each target follow from the two files"""
    v = values(c)
    frg = c.flag("frg")
    um = c.choice("um", ["micron", "nm"])
    full = c.flag("full")
    force = c.choice("force", [None, True, False])
    with place(c) as (d, out):
        x, l = files(c, d, v, ["phot"], frg, um=um, force=force)
        run(x, l, out, full_contrib=full)
        r = results(out)
        c.true("copies", {"p.xml", "list.csv"} <= set(os.listdir(os.path.dirname(out))))
    c.true("targets", sorted(r) == sorted(s[0] for s in STARS))
    g = logspace(LO, HI, N)
    inb = [0.0 if force and not 1.0 <= w <= 2.0 else 1.0 for w in g]
    om = omega(20.0, 30.0) * 18e-6 ** 2
    through = v["t"][0] * v["t"][1] * v["q"]
    for name, M, T, R, D in STARS:
        t = r[name]
        s2 = np.pi * (R * RSUN / (D * PC)) ** 2
        c.true("rows", len(t) == 1 and str(t["chName"][0]) == "Ch phot")
        sig = trapz([a * s2 * w * PH * b for a, w, b in zip(blackbody(T, g), g, inb)], g) * through * v["atel"]
        c.eq("star", t["starSignal"].to("ct/s").value[0], sig, rtol=1e-4)
        opt = {"M1": [planck(w, 300.0) * w * PH for w in g], "M3": [planck(w, 280.0) * w * PH for w in g]}
        win = u.Quantity(t["WindowSize"]).value[0]
        m1 = trapz(opt["M1"], g) * v["e"] * v["t"][1] * v["q"] * om * win
        m3 = trapz(opt["M3"], g) * 0.1 * v["q"] * om * win
        if full:
            c.eq("M1", t["M1 signal"].to("ct/s").value[0], m1, scale=1.0, rtol=1e-4)
            c.eq("M3", t["M3 signal"].to("ct/s").value[0], m3, scale=1.0, rtol=1e-4)
            c.true("replaced", "instrument_signal" not in t.colnames)
        else:
            c.eq("optics", t["instrument_signal"].to("ct/s").value[0], m1 + m3, scale=1.0, rtol=1e-4)
        z = t["zodi_signal"].to("ct/s").value[0] if frg else 0.0
        if frg:
            zr = [v["zf"] * (3.5e-14 * planck(w, 5500.0) + 3.58e-8 * planck(w, 270.0)) for w in g]
            c.eq("zodi", z, trapz([a * b * w * PH for a, b, w in zip(zr, inb, g)], g) * through * om * win, scale=1.0, rtol=1e-4)
        rg, sg = gain(2)
        a = t["star_signal_inAperture"].to("ct/s").value[0]
        var = (sg * ((1.0 + v["nx"]) * (a + m1 + m3 + z) + v["dark"] * win) + rg * v["rn"] * v["rn"] * win / 5.0) * HR * HR
        got = t["total_noise"].to(u.hr ** 0.5).value[0]
        c.eq("total", (got * a) * (got * a), var, rtol=1e-3)


def table_same(c, label, a, b, skip=()):
    for k in a.colnames:
        if k in skip:
            continue
        c.true(label + "_has", k in b.colnames)
        if k == "chName":
            c.true(label + "_rows", [str(x) for x in a[k]] == [str(x) for x in b[k]])
        else:
            c.eq(label, u.Quantity(a[k]), u.Quantity(b[k]), rtol=1e-5)


def contributions(c):
    """listing every contribution of the optics changes no other column; their sum is the instrument signal"""
    v = values(c)
    kinds = c.choice("kinds", [["spec"], ["phot", "spec"]])
    with place(c) as (d, out):
        x, l = files(c, d, v, kinds, c.flag("frg"), els=("M3", "M4"))
        run(x, l, out)
        a = results(out)
        run(x, l, out, full_contrib=True)
        b = results(out)
    c.true("targets", sorted(a) == sorted(b) == sorted(s[0] for s in STARS))
    for n in a:
        table_same(c, "same", a[n], b[n], skip=("instrument_signal", "instrument_signal_noise"))
        s = [k for k in b[n].colnames if k.endswith(" signal")]
        c.true("named", {"M1 signal", "M3 signal"} <= set(s))
        for i in range(len(a[n])):
            c.eq("sum", fsum([b[n][k].to("ct/s").value[i] for k in s]), a[n]["instrument_signal"].to("ct/s").value[i])


def reuse(c):
    """the output file holds the payload: observing with it gives the same tables"""
    v = values(c)
    kinds = c.choice("kinds", [["phot"], ["spec", "phot"]])
    with place(c) as (d, out):
        x, l = files(c, d, v, kinds, c.flag("frg"))
        run(x, l, out)
        a = results(out)
        T = mod("tasks")
        set_R(c, 9)  # as left by another payload
        pl, ch, rng = T.PreparePayload()(payload_file=out, output=None)
        tl = T.LoadTargetList()(target_list=l)
        b = T.ObserveTargetlist()(targets=tl.target, payload=pl, channels=ch, wl_range=rng, plot=False, out_dir=None)
    c.true("targets", sorted(a) == sorted(b))
    for n in a:
        # rows may come in another channel order
        tb = b[n].table
        for name in sorted(set(str(k) for k in a[n]["chName"])):
            ra = a[n][[str(k) == name for k in a[n]["chName"]]]
            rb = tb[[str(k) == name for k in tb["chName"]]]
            table_same(c, "same", ra, rb)


def history(c):
    """a payload that asks for no resolution of the grids is observed as in a fresh session after one that does"""
    v = dict(t=[0.9, 0.8], q=0.7, dark=c.real("dark", 0, 20), rn=c.real("rn", 0, 30), atel=1.5, e=0.2, nx=c.real("nx", 0, 1), zf=1.5)
    with place(c) as (d, out):
        set_R(c, 6000)
        x, l = files(c, d, v, ["phot"], True)
        with open(x) as f:
            other = f.read()
        first, second, keep = os.path.join(d, "first.xml"), os.path.join(d, "second.xml"), os.path.join(os.path.dirname(out), "keep.h5")
        for n, t in ((first, other.replace("<working_R>%d</working_R>" % N, "")), (second, other)):
            with open(n, "w") as f:
                f.write(t)
        run(first, l, keep)
        a = results(keep)
        run(second, l, out)
        run(keep if c.flag("saved") else first, l, out)
        b = results(out)
    c.true("targets", sorted(a) == sorted(b))
    for n in a:
        table_same(c, "same", a[n], b[n])


HARNESSES = [
    H(budget, "any transmissions, efficiency, telescope area, emissivity, dark current, read noise, NoiseX and zodiacal factor; photometer, two targets"),
    H(contributions, "same values; spectrometer or both, two targets"),
    H(reuse, "same values; photometer or both, two targets"),
    H(history, "any dark current, read noise and NoiseX; 6000-point grids of a photometer with foreground, two targets, from the xml or from a saved payload"),
]
