"""Payload files: every value, unit, section and table of the XML reaches the options."""
import os
import pickle
import tempfile
from collections import OrderedDict

from checks.lib import *


@contextlib.contextmanager
def folder():
    with tempfile.TemporaryDirectory() as d:
        yield d


def load(d, xml, name="p.xml", task=None, **k):
    f = os.path.join(d, name)
    with open(f, "w") as h:
        h.write(xml)
    with contextlib.redirect_stdout(None):
        return (task or mod("tasks").LoadOptions())(filename=f, **k)


def pad(c, text, name="pad"):
    return {0: text, 1: "  " + text + " ", 2: "\n      " + text + "\n   "}[c.int(name, 0, 2)]


def section(c, inner):
    """a section with or without line breaks around its children"""
    return inner if c.flag("compact") else "\n  " + inner + "\n"


UNITS = [(None, None), ("um", "um"), ("nm", "nm"), ("K", "K"), ("dimensionless", ""), ("micron", "um"), ("1/s", "1/s"), ("deg", "deg"), ("count", "count"), ("count/second", "ct/s"), ("m**2", "m2")]


def numbers(c):
    """a number with its unit, with any spacing, at any depth, next to its attributes and comments"""
    v, w = c.real("v", -100.0, 100.0), c.real("w", -100.0, 100.0)
    un, want = c.choice("unit", UNITS)
    att = "" if un is None else ' unit="%s"' % un
    com = "<comment>5 um of True</comment>" if c.flag("comment") else ""
    leaf = "<x%s note=\"3\" Origin=\"Table A\">%s%s</x>" % (att, pad(c, c.literal(v)), com)
    with folder() as d:
        o = load(d, "<root>%s</root>" % section(c, "<a>%s<y>%s</y></a><b>word<z>%s</z></b>" % (leaf, c.literal(w), c.literal(v))))
    x = o["a"]["x"]
    if un is None:
        c.true("bare", not hasattr(x["value"], "unit"))
        c.eq("value", x["value"], v)
    else:
        c.eq("quantity", x["value"], c.scalar_q(v, want))
        c.true("unit", x["value"].unit == u.Unit(want) and x["unit"] == un)
    c.true("attribute", x["note"] == "3" and x["Origin"] == "Table A")
    c.true("comment", ("comment" in x) == bool(com) and (not com or x["comment"]["value"] == "5 um of True"))
    c.eq("sibling", o["a"]["y"]["value"], w)
    c.true("no_value", "value" not in o["a"])
    c.true("word", o["b"]["value"] == "word")
    c.eq("nested", o["b"]["z"]["value"], v)
    c.true("only", set(o) == {"a", "b"} and set(o["a"]) == {"x", "y"})


def words(c):
    """integers, booleans and strings"""
    t, want = c.choice("t", [("3", 3), ("-2", -2), ("True", True), ("False", False), ("name of it", "name of it"), ("two  spaces", "two  spaces"), ("-.5", -0.5), ("+7", 7), ("1.", 1.0), ("1e-3", 1e-3), ("0x1F", "0x1F"), ("4.5.6", "4.5.6"), ("x.dat", "x.dat"), ("...", "...")])
    with folder() as d:
        o = load(d, "<root><a>%s</a><e></e><f/></root>" % pad(c, t))
    v = o["a"]["value"]
    c.true("type", type(v) is type(want))
    c.true("value", v == want)
    c.true("empty", "value" not in o["e"] and "value" not in o["f"])


def repeated(c):
    """repeated sections keep their order and all of their content, also when their values are the same"""
    n = c.int("n", 2, 4)
    same = c.choice("same_%d" % n, [()] + [(i, j) for i in range(n) for j in range(i + 1, n)])
    kind = c.choice("kind", ["name", "number"])
    v = c.reals("v", n, 0, 1)
    val = [(["t", "m", "z", "a"][k] if kind == "name" else str(k + 2)) for k in range(n)]
    if same:
        val[same[1]] = val[same[0]]
    sep = c.flag("other")  # another tag between two of the repeated ones
    items = ["<e>%s<t unit=\"m\">%s</t></e>" % (pad(c, x), c.literal(y)) for x, y in zip(val, v)]
    if sep:
        items.insert(1, "<q>7</q>")
    with folder() as d:
        o = load(d, "<root><o>%s</o></root>" % section(c, "".join(items)))
    e = o["o"]["e"]
    c.true("ordered", isinstance(e, OrderedDict))
    c.true("all", len(e) == n)
    for k, (key, it) in enumerate(e.items()):
        c.true("value", str(it["value"]) == val[k])
        if val.index(val[k]) == k:
            c.true("key", str(key) == val[k] and key == it["value"])
        c.eq("content", it["t"]["value"], c.scalar_q(v[k], "m"))
    c.true("other", ("q" in o["o"]) == sep and (not sep or o["o"]["q"]["value"] == 7))


def single(c):
    """a section that is not repeated stays a plain section"""
    v = c.real("v", 0, 1)
    with folder() as d:
        o = load(d, "<root><o><e>s<t>%s</t></e></o></root>" % c.literal(v))
    c.true("plain", not isinstance(o["o"]["e"], OrderedDict) and o["o"]["e"]["value"] == "s")
    c.eq("content", o["o"]["e"]["t"]["value"], v)


def paths(c):
    """__ConfigPath__ is the ConfigPath of the file, or the one given at run time"""
    tag, given = c.flag("tag"), c.flag("given")
    c.assume(tag or given)
    with folder() as d:
        xml = "<root>%s<a>__ConfigPath__/x.dat</a><b><c>in __ConfigPath__/y</c></b></root>" % (
            ("<ConfigPath>%s<comment>main</comment></ConfigPath>" % pad(c, "/base dir")) if tag else "")
        o = load(d, xml, config_path="/run" if given else None)
    base = "/run" if given else "/base dir"
    c.true("path", o["a"]["value"] == base + "/x.dat")
    c.true("nested_path", o["b"]["c"]["value"] == "in " + base + "/y")


def reused(c):
    """a loader used twice gives each file its own path"""
    t = mod("tasks").LoadOptions()
    v = c.real("v", 0, 1)
    body = "<root><ConfigPath>%s</ConfigPath><a>__ConfigPath__/x</a><v>%s</v></root>"
    first = c.choice("first", [dict(), dict(config_path="/run")])
    with folder() as d:
        o1 = load(d, body % ("/one", "1.5"), task=t, **first)
        o2 = load(d, body % ("/two", c.literal(v)), "q.xml", task=t)
        try:
            o3 = load(d, "<root><a>__ConfigPath__/x</a></root>", "r.xml", task=t)
        except TypeError:
            o3 = None
    c.true("first", o1["a"]["value"] == ("/run/x" if first else "/one/x"))
    c.true("third", o3 is None or not any(k in str(o3["a"]["value"]) for k in ("one", "run", "two")))
    c.true("second", o2["a"]["value"] == "/two/x")
    c.eq("value", o2["v"]["value"], v)


def tables(c):
    """data files (ECSV or plain CSV) become tables of their section"""
    kind = c.choice("kind", ["ecsv", "csv"])
    how = c.choice("how", ["abs", "config"])
    rows = [(1.0, 0.5), (2.0, 0.25), (3.5, 0.75)]
    head = "" if kind == "csv" else ("# %ECSV 0.9\n# ---\n# datatype:\n# - {name: Wavelength, unit: um, datatype: float64}\n"
                                     "# - {name: T, datatype: float64}\n")
    sep = "," if kind == "csv" else " "
    gap = c.choice("gap", [None, "N/A", "#N/A"] + ([""] if kind == "csv" else ['""']))
    v = c.real("v", 0, 1)
    with folder() as d:
        with open(os.path.join(d, "t.csv"), "w") as f:
            f.write(head + sep.join(["Wavelength", "T"]) + "\n" + "".join("%s%s%s\n" % (a, sep, b if gap is None or a != 2.0 else gap) for a, b in rows))
        p = os.path.join(d, "t.csv") if how == "abs" else "__ConfigPath__/t.csv"
        o = load(d, "<root><ConfigPath>%s</ConfigPath><a>s<datafile>%s</datafile><t>%s</t></a><b>1</b></root>" % (d, pad(c, p), c.literal(v)))
    t = o["a"]["data"]
    if gap is not None:  # missing values count as zero
        rows = [(a, 0.0 if a == 2.0 else b) for a, b in rows]
    c.true("columns", list(t.colnames) == ["Wavelength", "T"])
    c.true("cells", list(zip(*[[float(x) for x in u.Quantity(t[k]).value] for k in t.colnames])) == rows)
    c.true("unit", (str(t["Wavelength"].unit) == "um") == (kind == "ecsv"))
    c.eq("sibling", o["a"]["t"]["value"], v)
    c.true("elsewhere", "data" not in o["b"] and "data" not in o)


def dictionaries(c):
    """pickled or hdf5 dictionaries become the data of their section, or the section itself"""
    kind = c.choice("kind", ["pickle", "h5"])
    whole = c.flag("whole")
    x = c.choice("x", [1.5, 3.25])
    with folder() as d:
        p = os.path.join(d, "d." + kind)
        content = {"a": {"value": x, "unit": "um"}, "n": 4}
        if kind == "pickle":
            with open(p, "wb") as f:
                pickle.dump({"a": {"value": x * u.um}, "n": 4}, f)
        else:
            import h5py
            with h5py.File(p, "w") as f:
                g = f.create_group("a")
                g["value"], g["unit"] = x, "um"
                f["n"] = 4
        o = load(d, "<root><ConfigPath>%s</ConfigPath><s>s<%s>__ConfigPath__/d.%s</%s></s></root>" % ((d,) + (("config_dict", kind, "config_dict") if whole else ("datadict", kind, "datadict"))))
    got = o["s"] if whole else o["s"]["data"]
    c.eq("quantity", u.Quantity(got["a"]["value"]), x * u.um)
    c.true("number", int(got["n"]) == 4)
    c.true("value", o["s"].get("value") == "s")
    if whole:
        c.true("source", o["s"]["config_dict"] == p)
    v = c.real("v", 0, 1)
    with folder() as d:
        c.eq("again", load(d, "<root><v>%s</v></root>" % c.literal(v))["v"]["value"], v)


def resolution(c):
    """the working resolution of the file is the one used afterwards"""
    P = mod("utils.passVal").PassVal
    c._undo.append((P, "_working_R", P._working_R))
    n = c.choice("n", [100, 7000])
    with folder() as d:
        load(d, "<root><common><working_R>%s</working_R></common><v>%s</v></root>" % (pad(c, str(n)), c.literal(c.real("v", 0, 1))))
    c.true("used", P.working_R == n)


def refused(c):
    """other formats, missing files and unreadable data are refused"""
    k = c.choice("k", ["ext", "missing", "data", "dict", "dictext", "type"])
    v = c.literal(c.real("v", 0, 1))
    with folder() as d:
        L = lambda xml, **kw: load(d, "<root><v>%s</v>%s</root>" % (v, xml), **kw)
        if k == "ext":
            c.true("refused", raises(OSError, L, "", name="p.txt"))
        elif k == "missing":
            c.true("refused", raises(OSError, mod("tasks").LoadOptions(), filename=os.path.join(d, "no.xml")))
        elif k == "data":
            c.true("refused", raises(OSError, L, "<a><datafile>%s/no.csv</datafile></a>" % d))
        elif k == "dict":
            c.true("refused", raises(OSError, L, "<a><datadict>%s/no.pickle</datadict></a>" % d))
        elif k == "dictext":
            c.true("refused", raises(OSError, L, "<a><datadict>%s/no.txt</datadict></a>" % d))
        else:
            c.true("refused", raises(OSError, L, "<a><datafile>%s/no.csv</datafile><datatype>strange</datatype></a>" % d))


HARNESSES = [
    H(numbers, "any two numbers, eight units, three spacings, with/without comments and line breaks"),
    H(words, "ten texts, three spacings, empty elements"),
    H(repeated, "2..4 repeated sections with any content, every pair of equal values"),
    H(single, "one section"),
    H(paths, "ConfigPath in the file and/or given"),
    H(reused, "two files in one session"),
    H(tables, "ECSV and CSV file, absolute or relative path"),
    H(dictionaries, "pickle and hdf5, as data or whole section"),
    H(resolution, "two resolutions"),
    H(refused, "six refusals"),
]
