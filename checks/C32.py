"""Saved payloads and channels can be loaded and used in place of the built ones."""
import os
from collections import OrderedDict

from checks.lib import *
from symx.h5 import store


def write(path, what, append=False):
    with mod("output.hdf5").HDF5Output(path, append=append) as o:
        what(o)


def read(path):
    import h5py
    return h5py.File(path, "r")


def same(c, label, got, want):
    """dictionary read back against the one saved"""
    if isinstance(want, dict):
        if isinstance(want, OrderedDict) and len(want) > 1:
            c.true(label + "_order", isinstance(got, OrderedDict) and [str(k) for k in got] == [str(k) for k in want])
        for k, v in want.items():
            if not c_true(c, label + "_key", str(k) in got, str(k)):
                return
            same(c, label, got[str(k)], v)
    elif isinstance(want, (Table, QTable)):
        c.true(label + "_columns", list(got.colnames) == list(want.colnames))
        for k in want.colnames:
            if want[k].dtype.kind in "US":
                c.true(label + "_names", [str(x.decode() if isinstance(x, bytes) else x) for x in got[k]] == [str(x) for x in want[k]])
            else:
                c.eq(label + "_column", u.Quantity(got[k]), u.Quantity(want[k]))
    elif isinstance(want, str):
        c.true(label + "_text", got == want)
    elif (isinstance(want, (list, tuple)) and want and isinstance(want[0], str)) or (isinstance(want, np.ndarray) and want.dtype.kind in "US"):
        c.true(label + "_texts", [x.decode() if isinstance(x, bytes) else str(x) for x in np.array(got).reshape(-1)] == [str(x) for x in want])
    elif isinstance(want, bool):
        c.true(label + "_flag", bool(got) == want)
    else:
        c.eq(label, u.Quantity(got), u.Quantity(want) if hasattr(want, "unit") else want)


def c_true(c, label, ok, msg=""):
    c.true(label, ok)
    return ok


def dictionary(c):
    """any dictionary of numbers, quantities, texts, arrays, tables and nested dictionaries"""
    x, y, z = c.real("x", -5, 5), c.real("y", -5, 5), c.reals("z", 3, -5, 5)
    un = c.choice("unit", ["um", "nm", "", "W / (m2 um)", "ct / s"])
    T = (QTable if c.flag("qtable") else Table)()
    q = c.q(z, un) if un else c.arr(z)
    T["Wavelength"] = np.array([1.0, 2.0, 3.0]) * u.um
    T["v"] = q if isinstance(T, QTable) or not un else Column(c.arr(z), unit=un)
    if c.flag("names"):
        T["n"] = ["a", "b c", "d"]
    if c.flag("meta"):
        T.meta["title"], T.meta["R"] = "any title", 3
        T["v"].info.description = "what it is"
    d = {"number": x, "quantity": {"value": c.scalar_q(y, un)}, "array": c.arr(z), "arrayq": c.q(z, "um"), "plainq": c.scalar_q(x, "K"),
         "text": "some text", "spaced": "  two spaces  ", "large": [123456789, 2.5], "whole": 123456789, "small": [1e-300, 1 / 3], "long": ["a" * 40, "b" * 70 + "c", "caf\u00e9", ""], "word": "\u03bcm" * 50, "n": 3, "flag": False, "list": z, "texts": ["one", "\u03bcm" * 40], "arraytexts": np.array(["one", "\u03bcm two"]), c.choice("tab", ["table", "Ch-1.5"]): T, "nest": {"deep": {"value": y, "unit": "m"}}}
    keys = list(d)
    with store(c) as p:
        write(p, lambda o: o.store_dictionary(d, group_name="g"))
        with read(p) as f:
            got = mod("output.hdf5").load(f["g"])
            names = [k for k in f["g"]]
            columns = mod("output.hdf5").load(f["g"]["%s_to_group" % [k for k in d if d[k] is T][0]])
        # what was read can be saved again
        with store(c) as p2:
            write(p2, lambda o: o.store_dictionary(dict(got), group_name="g"))
            with read(p2) as f:
                again = mod("output.hdf5").load(f["g"])
    want = dict(d)
    want["nest"] = {"deep": {"value": c.scalar_q(y, "m")}}
    for k in ("arrayq", "plainq"):
        c.eq("quantity", u.Quantity(got[k]["value"]), u.Quantity(d[k]))
        c.eq("quantity_again", u.Quantity(again[k]["value"]), u.Quantity(d[k]))
        del want[k]
    same(c, "content", got, want)
    same(c, "content_again", again, want)
    t = [k for k in d if d[k] is T][0]
    # columns of a table, one by one
    for k in T.colnames:
        col = columns[k]
        if T[k].dtype.kind in "US":
            c.true("column_names", [x.decode() for x in col["value"]] == list(T[k]))
        else:
            c.eq("column_value", u.Quantity(col["value"]), u.Quantity(T[k]))
            c.true("column_unit", (T[k].unit is None) or u.Quantity(col["value"]).unit == T[k].unit)
    c.true("meta", dict(got[t].meta) == dict(T.meta))
    c.true("description", got[t]["v"].info.description == T["v"].info.description)
    c.true("input_kept", list(d) == keys)


def grouped(c):
    """groups written in several goes keep what they had"""
    x, y, z = c.real("x", -5, 5), c.real("y", -5, 5), c.real("z", -5, 5)
    same_output = c.flag("same_output")
    with store(c) as p:
        def one(o):
            o.create_group("g").store_dictionary({"x": x}, "sub")

        def two(o):
            o.create_group("g").store_dictionary({"y": c.scalar_q(y, "m")}, "sub")
            o.store_dictionary({"z": z}, "g")
        if same_output:
            write(p, lambda o: (one(o), two(o)))
        else:
            write(p, one)
            write(p, two, append=True)
        with read(p) as f:
            got = mod("output.hdf5").load(f["g"])
    same(c, "content", got, {"sub": {"x": x, "y": {"value": c.scalar_q(y, "m")}}, "z": z})


def signal(c):
    """a spectral signal"""
    z = c.reals("z", 4, 0, 5)
    S = mod("models.signal")
    s = S.Sed(np.array([1.0, 2.0, 3.0, 4.0]) * u.um, c.arr(z))
    with store(c) as p:
        write(p, lambda o: o.store_dictionary({"sed": s}, group_name="g"))
        with read(p) as f:
            got = mod("output.hdf5").load(f["g"])["sed"]
    c.eq("grid", u.Quantity(got["wl_grid"]["value"]), np.array([1.0, 2.0, 3.0, 4.0]) * u.um)
    c.eq("data", u.Quantity(got["data"]["value"]).reshape(-1), c.q(z, "W m-2 um-1"))


N = 5


def channels(c, kinds, els, slit=False):
    d = OrderedDict()
    for i, k in enumerate(kinds):
        if k == "phot":
            x = phot_desc(c, optics={"opticalElement": els[i]})
        else:
            x = spec_desc(c, targetR=V(2), optics={"opticalElement": els[i]})
        x["channelClass"] = V("Photometer" if k == "phot" else "Spectrometer")
        x["value"] = "Ch %d.5" % i
        d["Ch %d.5" % i] = x
    return d


def described(c):
    """the description of a payload file, as the reader of XML files gives it"""
    t, e, q = c.reals("t", 2, 0, 1), c.real("e", 0, 1), c.real("q", 0.1, 1)
    atel = c.real("atel", 0.1, 2)
    return t, e, q, atel


def observe(chs, t, payload_):
    out = {}
    import copy
    for n, ch in chs.items():
        out[n] = ch.propagate_target(t)
    return out


def payload_roundtrip(c):
    """channels loaded from a file observe as the built ones"""
    set_R(c, N)
    stub_psf(c, np.array([[0.4, 0.1]]))
    kinds = c.choice("kinds", [["phot"], ["spec"], ["spec", "phot"]])
    slit = kinds != ["phot"] and c.flag("slit")
    t, e, q, atel = described(c)
    E = lambda n, v, **k: elem(n, transmission=c.scalar_q(v, ""), **k)
    els = od(E("B", t[0], emissivity=c.scalar_q(e, ""), temperature=200.0 * u.K), E("A", t[1]))
    if slit:
        els = od(*els.values(), elem("S", "slit", width=60.0 * u.um), E("C", t[1], emissivity=0.2, temperature=300.0 * u.K))
    ch = channels(c, kinds, [els, elem("only")])
    for k in ch:
        ch[k]["detector"]["qe"] = V(c.scalar_q(q, ""))
    pl = payload(c, c.flag("force"), atel, els=E("M1", 0.5))
    pl["channel"] = ch if len(ch) > 1 else list(ch.values())[0]
    pl["common"] = {"wl_min": V(0.5 * u.um), "wl_max": V(3.0 * u.um)}
    T = mod("tasks")
    with store(c) as p:
        box = {}
        write(p, lambda o: box.update(ch=T.BuildChannels()(payload=pl, write=True, output=o)))
        with read(p) as f:
            lp, lc = T.LoadPayload()(input=f)
    # loaded channels can be saved in their turn
    with store(c) as p2:
        def save(o):
            o = o.create_group("payload")
            o.store_dictionary(lp, group_name="payload description")
            g = o.create_group("channels")
            for x in lc.values():
                x.write(g)
        write(p2, save)
        with read(p2) as f:
            ap, ac = T.LoadPayload()(input=f)
    built = box["ch"]
    c.true("channels_again", sorted(ac) == sorted(built))
    for n in built:
        same(c, "table_again", ac[n].table, built[n].table)
        same(c, "description_again", ac[n].description, ch[n])
    same(c, "payload_again", ap, pl)
    c.true("channels", list(lc) == sorted(built) or list(lc) == list(built))
    c.eq("area", u.Quantity(lp["optics"]["Atel"]["value"]), u.Quantity(pl["optics"]["Atel"]["value"]))
    c.true("rebuild_refused", all(raises(ValueError, x.build) for x in lc.values()))
    w = [0.7, 1.0, 1.4, 1.9, 2.4]
    st = star(c, w, c.reals("f", 5, 0.1, 5))
    st.foreground = {"sky": mod("models.signal").Radiance(np.array(w) * u.um, c.arr(c.reals("sky", 5, 0, 5)))}
    for n in built:
        same(c, "table", lc[n].table, built[n].table)
        a, b = built[n].propagate_target(st), lc[n].propagate_target(st)
        a, b = (x[0] if isinstance(x, tuple) else x for x in (a, b))
        same(c, "observed", b, a)
        a, b = built[n].propagate_diffuse_foreground(st), lc[n].propagate_diffuse_foreground(st)
        for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
            same(c, "foreground", y, x)


def target_saved(c):
    """a target's table, star, planet, spectrum and foregrounds in the output file"""
    M = mod("models.target")
    t = M.Target()
    t.name, t.id = "a b", 3
    x, z = c.reals("x", 3, 0.1, 5), c.reals("z", 2, 0, 5)
    t.star, t.planet = M.Target(), M.Target()
    t.star.name, t.planet.name = "a", "a b"
    t.star.R, t.star.Teff, t.star.D = c.scalar_q(x[0], "R_sun"), c.scalar_q(x[1], "K"), c.scalar_q(x[2], "pc")
    t.planet.radius = c.scalar_q(x[1], "R_jup")
    S = mod("models.signal")
    t.star.sed = S.Sed(np.array([1.0, 2.0]) * u.um, c.q(z, "W m-2 um-1"))
    t.foreground = {"zodi": S.Radiance(np.array([1.0, 2.0]) * u.um, c.q(z[::-1], "W m-2 um-1 sr-1"))}
    T = QTable()
    T["chName"] = ["P", "long name"]
    T["Wavelength"] = c.q(z, "um")
    T["total_noise"] = c.q(x[:2], "hr(1/2)")
    T["QE"] = c.arr(z)
    T.meta["name"], T.meta["starR"] = "a b", "5"
    t.table = T
    two = M.Target()
    two.name, two.table = "other", T["Wavelength", "QE"]
    with store(c) as p:
        write(p, lambda o: t.write(o))
        write(p, lambda o: two.write(o), append=True)
        with read(p) as f:
            c.true("targets", sorted(f["targets"].keys()) == ["a b", "other"])
            got, got2 = (mod("output.hdf5").load(f["targets"][k]) for k in ("a b", "other"))
            tab = got["table"]["table"]
            c.true("info", "info" in f.keys())
    same(c, "table", tab, T)
    c.true("meta", dict(tab.meta) == dict(T.meta))
    same(c, "second", got2["table"]["table"], two.table)
    c.true("identity", int(got["id"]) == 3)
    for k in ("R", "Teff", "D"):
        c.eq("star_" + k, u.Quantity(got["star"][k]["value"]), getattr(t.star, k))
    c.eq("planet", u.Quantity(got["planet"]["radius"]["value"]), t.planet.radius)
    for n, g, w in (("sed", got["star"]["sed"], t.star.sed), ("zodi", got["foreground"]["zodi"], t.foreground["zodi"])):
        c.eq(n + "_grid", u.Quantity(g["wl_grid"]["value"]), w.wl_grid)
        c.eq(n + "_data", u.Quantity(g["data"]["value"]).reshape(-1), w.data)


def prepared(c):
    """payload prepared with an output file, then prepared again from that file"""
    set_R(c, N)
    stub_psf(c, np.array([[0.4, 0.1]]))
    t, e, q, atel = described(c)
    els = od(elem("B", transmission=c.scalar_q(t[0], ""), emissivity=c.scalar_q(e, ""), temperature=200.0 * u.K), elem("A", transmission=c.scalar_q(t[1], "")))
    kinds = c.choice("kinds", [["phot"], ["phot", "spec"]])
    ch = channels(c, kinds, [els, elem("only")])
    pl = payload(c, False, atel)
    pl["channel"] = ch if len(ch) > 1 else list(ch.values())[0]
    lo, hi = c.real("lo", 0.4, 0.6), c.real("hi", 2.5, 3.5)
    un = c.choice("un", ["um", "nm"])
    n = c.reals("n", 2, 0, 10)
    frg = [OrderedDict([("value", k), ("transmission", V(c.scalar_q(t[i], ""))), ("radiance", V(c.scalar_q(n[i], "W m-2 um-1 sr-1")))]) for i, k in enumerate(["sky", "Cloud"])]
    pl["common"] = {"wl_min": V(c.scalar_q(lo * u.um.to(un), un)), "wl_max": V(c.scalar_q(hi, "um")),
                    "foreground": OrderedDict([(f["value"], dict(f)) for f in frg])}
    nz = c.choice("noises", [("z gyro", "gyro"), ("z gyro", "gyro", "gyro"), ("30", "30"), (30, 5), (30.0, 30.0)])
    for x in ch.values():  # sections of the same value are numbered, as by the payload reader
        x["customNoise"] = OrderedDict((k if nz.index(k) == i else str(k) + "_1", {"value": k, "noise": V(n[i % 2])}) for i, k in enumerate(nz))
        x["optics"]["opticalElement"] = els if x is list(ch.values())[0] else x["optics"]["opticalElement"]
    T = mod("tasks")
    with store(c) as p:
        a = T.PreparePayload()(payload_file=pl, output=p)
        b = T.PreparePayload()(payload_file=p, output=None)
        with read(p) as f:
            whole = mod("output.hdf5").load(f)["payload"]["channels"]
    for x in (a, b):
        c.eq("range", x[2][0], c.scalar_q(lo, "um"))
        c.eq("range", x[2][1], c.scalar_q(hi, "um"))
        c.true("names", list(x[1]) == list(ch))
    for n in ch:
        same(c, "table", b[1][n].table, a[1][n].table)
        same(c, "whole_table", whole[n][n], a[1][n].table)
        bi, ai = b[1][n].built_instr, a[1][n].built_instr
        for k in ("signal_table", "max_signal_per_pixel", "radiance_table", "transmission_table"):
            if k in ai["optical_path"]:
                same(c, k, bi["optical_path"][k], ai["optical_path"][k])
    same(c, "payload", b[0], pl)
    for x in b[1]:
        same(c, "description", b[1][x].description, ch[x])
    # the payload read can be saved in its turn, and built
    set_R(c, N)
    with store(c) as p2:
        again = T.PreparePayload()(payload_file=b[0], output=p2)
        last = T.PreparePayload()(payload_file=p2, output=None)
    for x in (again, last):
        c.true("names_again", sorted(x[1]) == sorted(ch))
        for n in ch:
            same(c, "table_again", x[1][n].table, a[1][n].table)
        same(c, "payload_again", x[0], pl)
    c.true("refused", raises(OSError, T.PreparePayload(), payload_file="payload.txt", output=None))


HARNESSES = [
    H(dictionary, "any numbers in every kind of container, five units"),
    H(grouped, "any numbers written to one group in three goes, in one or two outputs"),
    H(signal, "any 4-sample signal"),
    H(payload_roundtrip, "any transmissions, efficiency, telescope area and spectrum; photometer, spectrometer or both"),
    H(prepared, "any transmissions, efficiency, area and working range; one or two channels"),
    H(target_saved, "any table cells, stellar parameters, spectrum and foreground"),
]
