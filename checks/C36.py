"""Table operations: stacking channel tables, adding results to a target table."""
from checks.lib import *


def tab(c, names, cols, meta=None):
    T = QTable()
    T["chName"] = names
    for k, (v, un) in cols.items():
        T[k] = c.q(v, un) if un is not None else c.arr(v)
    return T


def snap(T):
    return (list(T.colnames), len(T), {k: [T[k][i] for i in range(len(T))] for k in T.colnames if k != "chName"}, list(T["chName"]) if "chName" in T.colnames else None)


def unchanged(c, label, T, s):
    c.true(label + "_columns", list(T.colnames) == s[0] and len(T) == s[1])
    for k, v in s[2].items():
        for i in range(s[1]):
            c.eq(label, T[k][i], v[i], scale=1e-9)


def stack(c):
    """rows in order, units reconciled, zero where a column is missing, inputs untouched"""
    n = [2, 1, 2]
    k = c.int("k", 1, 3)
    v = [c.reals("v%d" % i, n[i], -5, 5) for i in range(k)]
    extra = c.int("extra", 0, 3)  # bit i: table i%2 has the extra column
    e = [c.reals("e%d" % i, n[i], 1, 5) for i in range(k)]
    un, fac = c.choice("un", [("ct/s", 1.0), ("ct/min", 60.0)])
    eu = c.choice("eu", ["ct/s", ""])
    tabs = []
    for i in range(k):
        cols = {"v": ([x * fac for x in v[i]], un) if i == 1 else (v[i], "ct/s")}
        if extra >> (i % 2) & 1:
            cols["e"] = (e[i], eu)
        tabs.append(tab(c, ["C%d" % i] * n[i], cols))
    before = [snap(t) for t in tabs]
    out = mod("utils.util").vstack_tables(tabs)
    c.true("names", list(out["chName"]) == [x for i in range(k) for x in ["C%d" % i] * n[i]])
    c.eq("values", out["v"], c.q([x for i in range(k) for x in v[i]], "ct/s"), scale=1e-9)
    has = [bool(extra >> (i % 2) & 1) for i in range(k)]
    if any(has):
        c.eq("missing_zero", u.Quantity(out["e"]), c.q([x if has[i] else 0.0 for i in range(k) for x in e[i]], eu), scale=1e-9)
    else:
        c.true("no_extra", "e" not in out.colnames)
    for t, s in zip(tabs, before):
        unchanged(c, "input", t, s)
    # the result is independent of its inputs
    out["v"][0] = 1e3 * u.Unit("ct/s")
    for t, s in zip(tabs, before):
        unchanged(c, "alias", t, s)


def update(c):
    """adding results replaces columns of the same name, keeps all others and the rows, merges the metadata"""
    n = 3
    a, b, x, y = (c.reals(k, n, -5, 5) for k in "abxy")
    t = mod("models.target").Target()
    t.name = "t"
    T = tab(c, ["Q", "Q", "B"], {"a": (a, "ct/s"), "b": (b, "um")})
    T.meta.update(name="t", kept=1, again=5)
    t.table = T
    new = QTable()
    which = c.choice("which", ["new", "replace", "both"])
    if which in ("new", "both"):
        new["x"] = c.q(x, "s")
    if which in ("replace", "both"):
        new["b"] = c.q(y, "um")
    new.meta.update(extra=2, again=6)
    r = mod("tasks").UpdateTargetTable()(target=t, table=new)
    c.true("same_target", r is t)
    c.true("names", list(r.table["chName"]) == ["Q", "Q", "B"])
    c.true("columns", set(r.table.colnames) == {"chName", "a", "b"} | ({"x"} if which != "replace" else set()))
    c.eq("kept", r.table["a"], c.q(a, "ct/s"), scale=1e-9)
    c.eq("replaced", r.table["b"], c.q(b if which == "new" else y, "um"), scale=1e-9)
    if which != "replace":
        c.eq("added", r.table["x"], c.q(x, "s"), scale=1e-9)
    c.true("meta", r.table.meta.get("name") == "t" and r.table.meta.get("kept") == 1 and r.table.meta.get("extra") == 2)
    c.true("newer_meta", r.table.meta.get("again") == 6)


def prepare(c):
    """the prepared target table holds every channel's rows, and later target results stay out of the channels"""
    k = c.int("k", 1, 2)
    v = c.reals("v", 3, 0, 5)
    ch = {}
    for i, (nm, vals) in enumerate(list(zip(["Q", "B"], [v[:2], v[2:]]))[:k]):
        ch[nm] = SimpleNamespace(name=nm, table=tab(c, [nm] * len(vals), {"QE": (vals, ""), "Wavelength": ([1.0 + i] * len(vals), "um")}))
    before = {nm: snap(x.table) for nm, x in ch.items()}
    outs = []
    for name in ("t1", "t2"):
        t = mod("models.target").Target()
        t.name = name
        t = mod("tasks").PrepareTarget()(target=t, channels=ch)
        c.true("names", list(t.table["chName"]) == ["Q", "Q", "B"][:2 + (k - 1)])
        c.eq("values", t.table["QE"], c.q(v[:2 + (k - 1)], ""), scale=1e-9)
        c.true("name", t.table.meta["name"] == name)
        new = QTable()
        new["QE"] = c.q([9.0] * (1 + k), "")
        new["r"] = c.q([9.0] * (1 + k), "ct/s")
        t = mod("tasks").UpdateTargetTable()(target=t, table=new)
        outs.append(t)
    for nm, x in ch.items():
        unchanged(c, "channel", x.table, before[nm])
        c.true("no_meta", "name" not in x.table.meta)
    c.true("own_name", [o.table.meta["name"] for o in outs] == ["t1", "t2"])


HARNESSES = [
    H(stack, "1..3 tables of 1..2 rows, any values, an extra column in any of them, two units"),
    H(update, "3 rows, any values, new and/or repeated columns"),
    H(prepare, "1..2 channels, two targets prepared and updated from the same channels"),
]
