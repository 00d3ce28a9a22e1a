"""Target lists: every value of the list reaches its own target with its unit."""
from itertools import permutations

import os
import tempfile
from csv import writer

from checks.lib import *

SU = dict(M=("M_sun", u.M_sun.to("kg")), Teff=("K", 1.0), R=("R_sun", u.R_sun.to("m")), D=("pc", u.pc.to("m")))
SI = dict(M="kg", Teff="K", R="m", D="m")


def fake_read(c, T):
    """T stands in for the table in the file; the reader, as called, is tried on a real file with the same columns"""
    import astropy.io.ascii as asc
    real = {"asc": asc.read, "table": Table.read}

    def read(name, *a, **k):
        if str(name).endswith("tried.csv"):  # a reader calling another one
            return real["asc"](name, *a, **k)
        with tempfile.TemporaryDirectory() as D:
            path = os.path.join(D, "tried.csv")
            with open(path, "w") as f:
                w = writer(f)
                w.writerow(T.colnames)
                for i in range(len(T)):
                    w.writerow([str(T[n][i]) if T[n].dtype.kind in "US" else "%d.5" % i for n in T.colnames])
            got = real["table" if k.get("format", "").startswith("ascii") else "asc"](path, *a, **k)
        c.true("reader_columns", list(got.colnames) == list(T.colnames) and len(got) == len(T))
        for n in T.colnames:
            if T[n].dtype.kind in "US":
                c.true("reader_texts", [str(x) for x in got[n]] == [str(x) for x in T[n]])
            else:
                c.true("reader_numbers", [float(x) for x in got[n]] == [i + 0.5 for i in range(len(T))])
        return T.copy()
    table_files(c, read)


def load(x):
    return mod("tasks").LoadTargetList()(target_list=x)


def verify(c, tl, names, star, planets=None, pl=None):
    ts = tl.target
    c.true("number", len(ts) == len(names))
    for i, t in enumerate(ts):
        c.true("star_name", str(t.star.name) == names[i])
        c.true("id", t.id == i)
        c.true("name", str(t.name) == (planets[i] if planets else names[i]))
        for k, v in star.items():
            if k in SU:
                c.eq(k, u.Quantity(getattr(t.star, k)).to(SI[k]), c.scalar_q(v[i] * SU[k][1], SI[k]))
            else:
                c.eq(k, getattr(t.star, k), v[i])
        c.true("has_planet", hasattr(t, "planet") == bool(planets))
        if planets:
            c.true("planet_name", str(t.planet.name) == planets[i])
            for k, (v, un) in pl.items():
                c.eq("planet_" + k, u.Quantity(getattr(t.planet, k)), c.scalar_q(v[i], un))


def pnames(names):
    return ["X-1 c", "Cocoon", "HD-9 b"][:len(names)]  # not made of the star names


def columns(c, n):
    star = dict(M=c.reals("m", n, 0.1, 3), Teff=c.reals("t", n, 2000, 9000), R=c.reals("r", n, 0.1, 3), D=c.reals("d", n, 1, 300))
    names = ["A b", "GJ 1132", "A b"][:n]  # two planets of one star
    return names, star


def csv(c):
    """standard CSV: columns in several orders, optional planet columns"""
    n = c.int("n", 1, 3)
    names, star = columns(c, n)
    mag = c.reals("k", n, 0, 12)
    pr, pp = c.reals("pr", n, 1, 20), c.reals("pp", n, 1, 300)
    planets = pnames(names) if c.flag("planets") else None
    ks = list(c.choice("order", list(permutations(["M", "Teff", "R", "D"]))[:: 5 if not c.thorough else 1]))
    T = Table()
    if planets and c.flag("planet_first"):
        T["planet R [R_earth]"] = c.arr(pr)
    T["star name"] = names
    for k in ks:
        T["star %s [%s]" % (k, SU[k][0])] = c.arr(star[k])
    T["star magk"] = c.arr(mag)
    if planets:
        T["planet name"] = planets
        T["planet P [d]"] = c.arr(pp)
        if "planet R [R_earth]" not in T.colnames:
            T["planet R [R_earth]"] = c.arr(pr)
    fake_read(c, T)
    verify(c, load("list%s.csv" % c.uid), names, dict(star, magk=mag), planets, dict(R=(pr, "R_earth"), P=(pp, "d")))


def qtable(c):
    """in-memory table with quantities in any convertible unit"""
    n = c.int("n", 1, 2)
    names, star = columns(c, n)
    planets = pnames(names) if c.flag("planets") else None
    T = QTable()
    T["star name"] = names
    pr = c.reals("pr", n, 1, 20)
    alt = c.flag("alt")
    for k, (un, f) in SU.items():
        a = {"M": "kg", "R": "km", "D": "AU", "Teff": "K"}[k] if alt else un
        T["star " + k] = c.q([x * u.Unit(un).to(a) for x in star[k]], a)
    if planets:
        T["planet name"] = planets
        T["planet R"] = c.q(pr, "R_earth")
    before = list(T.colnames)
    verify(c, load(T), names, star, planets, dict(R=(pr, "R_earth")))
    c.true("input_kept", list(T.colnames) == before)


def mrs(c):
    """CSV in the other column convention (units in brackets, error columns, decimal commas)"""
    n = c.int("n", 1, 2)
    names, star = columns(c, n)
    comma = c.flag("comma")
    planets = pnames(names) if c.flag("planets") else None
    pr, pp, pm = c.reals("pr", n, 1, 20), c.reals("pp", n, 1, 300), c.reals("pm", n, 0.1, 20)
    (ru, rn), (mu, mn) = c.choice("units", [(("Re", "R_earth"), ("Me", "M_earth")), (("Rj", "R_jupiter"), ("Mj", "M_jupiter"))])
    T = Table()
    T["Star Name"] = names
    T["Star Mass [Ms]"] = ["1,5", "1,25"][:n] if comma else c.arr(star["M"])
    if comma:
        star["M"] = [1.5, 1.25][:n]
    T["Star Mass Error [Ms]"] = [0.1] * n
    T["Star Temperature [K]"] = c.arr(star["Teff"])
    T["Star Distance [pc]"] = c.arr(star["D"])
    T["Star Radius [Rs]"] = c.arr(star["R"])
    T["Star Radius Error [Rs]"] = [0.1] * n
    if planets:
        T["Planet Name"] = planets
        T["Planet Period [days]"] = c.arr(pp)
        if comma:
            pr = [1.75, 2.5][:n]
        T["Planet Radius [%s]" % ru] = ["1,75", "2,5"][:n] if comma else c.arr(pr)
        T["Planet Radius Error [%s]" % ru] = [0.2] * n
        T["Planet Mass [%s]" % mu] = c.arr(pm)
        T["Planet Semi-major Axis [au]"] = c.arr(pp)
        T["Planet Transit Duration [s]"] = c.arr(pm)
        T["Planet Impact Parameter"] = c.arr(pm)
        T["Planet Molecular Weight"] = c.arr(pr)
        T["Planet Heat Redistribution Factor"] = c.arr(pm)
    fake_read(c, T)
    verify(c, load("list%s.csv" % c.uid), names, star, planets, dict(R=(pr, rn), P=(pp, "d"), M=(pm, mn), a=(pp, "au"), T14=(pm, "s"), b=(pm, ""), mmw=(pr, ""), Gamma=(pm, "")))


def xlsx(c):
    """spreadsheet: star block, planet block, number of observations"""
    n = c.int("n", 1, 2)
    names, star = columns(c, n)
    planets = pnames(names)
    pr, nobs = c.reals("pr", n, 1, 20), c.reals("o", n, 1, 9)
    grid = {}
    heads = [("Star", "", names)] + [(k, "[%s]" % SU[k][0], star[k]) for k in ("M", "Teff", "R", "D")] + [("magk", "", [5.0] * n)]
    for j, h in enumerate(heads):
        grid[1 + j] = h
    ph = [("Planet", "", planets), ("R", "[R_earth]", pr)] + [("x%d" % i, "[nonsense]" if i == 0 else "", [1.0] * n) for i in range(9)]
    for j, h in enumerate(ph):
        grid[8 + j] = h
    grid[20] = ("Nobs", "", nobs)

    class Sheet:
        nrows, ncols = 4 + n, 21

        def col_values(self, colx, start_rowx=0, end_rowx=None):
            h = grid.get(colx, ("", "", [""] * n))
            return (["", "", h[0], h[1]] + list(h[2]))[start_rowx:end_rowx]

        def cell_value(self, rowx, colx):
            return self.col_values(colx)[rowx]

        def row_values(self, rowx, start_colx=0, end_colx=None):
            return [self.cell_value(rowx, j) for j in range(self.ncols)][start_colx:end_colx]

        def cell(self, rowx, colx):
            return SimpleNamespace(value=self.cell_value(rowx, colx))

        def row(self, rowx):
            return [self.cell(rowx, j) for j in range(self.ncols)]

        def col(self, colx):
            return [self.cell(i, colx) for i in range(self.nrows)]

    class Book:
        nsheets = 1

        def sheet_by_name(self, s):
            return Sheet()

        sheet_by_index = __getitem__ = sheet_by_name

        def sheet_names(self):
            return ["Sheet1"]

        def sheets(self):
            return [Sheet()]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    c.lib("xlrd", "open_workbook", lambda *a, **k: Book())
    tl = load("list%s.xlsx" % c.uid)
    verify(c, tl, names, star, planets, dict(R=(pr, "R_earth")))
    for t, v in zip(tl.target, nobs):
        c.eq("nobs", t.planet.Nobs, v)


def find(c):
    """a target is found by its star or planet name, with or without spaces and dashes, and no other"""
    names = ["GJ 1214", "BD+20 1790", "K2-18", "HD 3 (A)"]
    T = Table()
    T["star name"] = names
    T["star M [M_sun]"] = [1.0] * 4
    planets = c.flag("planets")
    if planets:
        T["planet name"] = [x + " b" for x in names]
    fake_read(c, T)
    tl = load("list%s.csv" % c.uid)
    i = c.int("i", 0, 3)
    how = c.choice("how_p" if planets else "how", ["exact", "compact", "lower"] + (["planet"] if planets else []))
    q = {"exact": names[i], "compact": names[i].replace(" ", "").replace("-", ""), "lower": names[i].lower(), "planet": names[i] + " b"}[how]
    c.true("found", [str(t.star.name) for t in tl.searchTarget(q)] == [names[i]])
    c.true("absent", tl.searchTarget("nowhere") == [])


def refused(c):
    """unknown formats and tables without units are refused"""
    k = c.choice("k", ["x.abc", "x.txt", "x"])
    c.true("format", raises(OSError, load, k))
    T = QTable()
    T["star name"] = ["A", "B"]
    T["star M"] = [1.0, 2.0] * u.M_sun
    T["star D"] = c.arr(c.reals("d", 2, 1, 5))
    c.true("units", raises(TypeError, load, T))


HARNESSES = [
    H(csv, "any values of 1..3 targets, columns in five orders (thorough: all), with/without planets"),
    H(qtable, "any values of 1..2 targets in two unit systems, with/without planets"),
    H(mrs, "any values of 1..2 targets, with/without planets, decimal commas"),
    H(xlsx, "any values of 1..2 targets (workbook reader replaced by an in-memory sheet)"),
    H(find, "four names, each searched in four ways"),
    H(refused, "three unsupported names, bare columns"),
]
