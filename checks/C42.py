"""Plots: the curves drawn are the columns of the tables, and drawing them changes nothing."""
import os
import sys
import tempfile
from collections import OrderedDict
from unittest.mock import MagicMock

from checks.lib import *
from checks.C29 import same, tgt, world
from symx.h5 import Group


def frozen(x):
    """what is drawn, as it was when it was drawn: (numbers, unit)"""
    q = u.Quantity(x)
    v = np.atleast_1d(np.array(q.value))
    return [v[i] for i in range(len(v))], q.unit


class Axes:
    """records what is drawn"""
    def __init__(self):
        self.lines, self.spans, self.legends, self.limits, self.labels = [], [], [], [], {}

    def plot(self, x, y, *a, **k):
        self.lines.append((k.get("label"), k.get("color", k.get("c")), frozen(x), frozen(y)))
        return [MagicMock()]

    def axvspan(self, lo, hi, *a, **k):
        self.spans.append((frozen(lo), frozen(hi)))

    def legend(self, *a, **k):
        self.legends.append((k.get("handles"), k.get("labels")) if k.get("handles") else None)

    def set_ylim(self, *a, **k):
        self.limits.append((a, k))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return MagicMock()


class Plt:
    """stand-in for matplotlib.pyplot"""
    def __init__(self, saved):
        self.saved, self.axes = saved, []

    def subplots(self, nrows=1, ncols=1, *a, **k):
        fig = MagicMock()
        fig.savefig = lambda name, *a, **k: self.saved.append(str(name))
        ax = [Axes() for _ in range(nrows * ncols)]
        self.axes += ax
        return fig, ax[0] if len(ax) == 1 else np.array(ax, dtype=object)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return MagicMock()


def drawing(c):
    saved = []
    plt = Plt(saved)
    c.setattr(mod("utils.plotter"), "plt", plt)
    return plt, saved


def curves(ax):
    out = {}
    for lab, col, x, y in ax.lines:
        out.setdefault(lab, []).append((x, y))
    return out


RN = "ct hr(1/2) / s"
HR = "hr(1/2)"


def observed(c, frg="sky", custom="gain", plain=False, n=3, un="um"):
    """table of an observed target: two channels, any values"""
    f = u.um.to(un)
    T = (Table if plain else QTable)()

    def col(name, unit, lo=0.1, hi=10.0, vals=None):
        v = c.arr(vals if vals is not None else c.reals(name.replace(" ", "_"), n, lo, hi))
        T[name] = Column(v, unit=unit) if plain else (v * u.Unit(unit))
    T["chName"] = ["A"] * (n - 1) + ["B b"]
    # the second channel is at longer wavelengths
    w, b = c.reals("wl", n - 1, 1.0, 1.8) + [c.real("wlb", 2.2, 3.0)], c.reals("bw", n, 0.1, 0.3)
    col("Wavelength", un, vals=[x * f for x in w])
    col("LeftBinEdge", un, vals=[(x - 0.5 * y) * f for x, y in zip(w, b)])
    col("RightBinEdge", un, vals=[(x + 0.5 * y) * f for x, y in zip(w, b)])
    sig = ["instrument_signal", frg + "_signal", "star_signal_inAperture"]
    for k in sig:
        col(k, "ct/s")
    col("starSignal", "ct/s", vals=[1.0] * n)
    col(frg + "_MaxSignal_inPixel", "ct/s", vals=[2.0] * n)
    col("MaxSignal_inPixel", "ct/s", vals=[3.0] * n)
    noise = [sig[1] + "_noise", "read_noise"]
    for k in noise:
        col(k, RN)
    noise1 = [custom + "_noise", "total_noise"]
    for k in noise1:
        col(k, HR)
    T.meta["name"] = "Alpha b"
    return T, w, b, sig, noise, noise1


def cols(T):
    return {k: (list(T[k]) if k == "chName" else frozen(T[k])[0]) for k in T.colnames}


def tables(c):
    """signals in counts per second, noises relative to the star, over the wavelengths of the rows; channel bands behind them"""
    frg, cn, plain, un = c.choice("which", [("sky", "gain", False, "um"), ("noise of the sky", "custom signal", False, "nm"), ("custom", "signal", True, "um"),
                                            ("sky", "noise", True, "nm"), ("noise", "gain", False, "um")])
    T, w, b, sig, noise, noise1 = observed(c, frg, cn, plain, un=un)
    before = cols(T)
    plt, saved = drawing(c)
    P = mod("utils.plotter").Plotter(input_table=T)
    fig, (a1, a2) = P.plot_table(**({} if T["Wavelength"].unit == u.um else dict(sig_ylim=0.5, noise_ylim=0.25)))
    S, N = curves(a1), curves(a2)
    c.true("all_signals", set(sig) <= set(S))
    c.true("only_signals", not [k for k in S if k and k.endswith("noise")])
    c.true("all_noises", set(N) == set(noise + noise1))
    n = len(w)
    for k in sig:
        c.true("once", len(S[k]) == 1)
        c.eq("signal_at", S[k][0][0][0], w)
        c.eq("signal", S[k][0][1][0], before[k])
    star = before["star_signal_inAperture"]
    for k in noise + noise1:
        c.true("once", len(N[k]) == 1)
        c.eq("noise_at", N[k][0][0][0], w)
        y, unit = N[k][0][1]
        c.eq("noise", y, [c.div(before[k][i], star[i]) if k in noise else before[k][i] for i in range(n)])
    for a in (a1, a2):
        c.true("bands", len(a.spans) == 2)
        want = [(c.min([w[i] - 0.5 * b[i] for i in r]), c.max([w[i] + 0.5 * b[i] for i in r])) for r in (range(n - 1), [n - 1])]
        # the channels come in any order
        for x, far in zip(want, (False, True)):
            got = [r for r in a.spans if (r[0][0][0] > 2.0) == far]
            c.true("one_band_each", len(got) == 1)
            c.eq("band", [got[0][0][0][0], got[0][1][0][0]], list(x))
    P.save_fig("/tmp/none/x.png")
    c.true("saved", saved == ["/tmp/none/x.png"])
    after = cols(T)
    c.true("columns_kept", list(after) == list(before))
    for k in before:
        if k != "chName":
            c.eq("table_kept", after[k], before[k])


def efficiency(c):
    """quantum efficiency, transmission and their product of every channel; the channels are left as they were"""
    n = 4
    set_R(c, n)
    stub_psf(c, np.array([[0.5]]))
    names = ["Aa", "B"]
    un = c.choice("un", ["um", "nm"])
    chans, q, t = OrderedDict(), [c.reals("q%d" % i, n, 0, 1) for i in (0, 1)], c.reals("t", 2, 0, 1)
    # efficiencies constant and tabulated
    qwl = [[0.5, 1.1, 1.7, 3.0], None]
    g = logspace(0.5, 3.0, n)
    for i, nm in enumerate(names):
        d = phot_desc(c, wl_min=V((1.0 * u.um).to(un)), wl_max=V((2.0 * u.um).to(un)), optics=dict(opticalElement=elem("L", transmission=c.scalar_q(t[i], ""))))
        d["detector"]["qe"] = qe_table(c, nm, qwl[i], q[i]) if qwl[i] else V(c.scalar_q(q[i][0], ""))
        ch = mod("models.instruments").Photometer(nm, d, payload(c, False, 1.0))
        ch.build()
        chans[nm] = ch

    def state():
        return [frozen(ch.built_instr[k + "_data"]["data"]["value"])[0] for ch in chans.values() for k in ("transmission", "qe")] + \
               [frozen(ch.table[k])[0] for ch in chans.values() for k in ("QE", "TR")]
    before = state()
    tab = mod("tasks").MergeChannelsOutput()(channels=chans)
    plt, saved = drawing(c)
    P = mod("utils.plotter").Plotter(input_table=tab, channels=chans)
    P.plot_efficiency()
    P.save_fig("e.png", efficiency=True)
    c.true("saved", saved == ["e.png"])
    ax = plt.axes[0]
    c.true("legend", len(ax.legends) == 1 and ax.legends[0] is not None)
    handles, labels = ax.legends[0]
    c.true("labels", sorted(labels) == ["pce", "qe", "transmission"])
    key = {tuple(h.get_color()): lab for h, lab in zip(handles, labels)}
    c.true("colours", len(key) == 3)
    drawn = {}
    for _, col, x, y in ax.lines:
        drawn.setdefault(key[tuple(col)], []).append((x, y))
    for i, nm in enumerate(names):
        qg = resample(g, qwl[i], q[i]) if qwl[i] else [q[i][0]] * n
        for lab, wl, val in (("transmission", g, [t[i]] * n), ("qe", qwl[i] or g, q[i] if qwl[i] else qg), ("pce", g, [t[i] * a for a in qg])):
            c.true("curves", len(drawn[lab]) == 2)
            (x, ux), (y, _) = drawn[lab][i]
            c.true("wavelengths", ux == u.um and len(x) == len(wl))
            c.eq("wavelength", x, wl)
            c.eq(lab, y, val)
    c.true("bands", len(ax.spans) == 2)
    for s in ax.spans:
        c.eq("band", [s[0][0][0], s[1][0][0]], [1.0, 2.0])
    for a, b in zip(before, state()):
        c.eq("channels_kept", b, a)


def unchanged(c):
    """observing with plots gives the same tables as without; one plot per target, named after it"""
    pl, ch, f, tr, q = world(c, frg=c.flag("frg"))
    R = c.reals("R", 2, 1, 10)
    bad = c.flag("bad")
    where = c.choice("where", ["dir", "none"])
    mk = lambda: [tgt(c, ["T 9", "B 1"][i], r, bad="noR" if bad and i == 0 else None) for i, r in enumerate(R)]  # noqa: E731

    def go(plot, out):
        return mod("tasks").ObserveTargetlist()(targets=mk(), payload=pl, channels=ch, wl_range=(0.5 * u.um, 3.0 * u.um), plot=plot, out_dir=out)
    a = go(False, None)
    plt, saved = drawing(c)
    b = go(True, "/tmp/nowhere" if where == "dir" else None)
    c.true("targets", list(a) == list(b) == ["T 9", "B 1"][bad:])
    if where == "dir":
        c.true("files", saved == [os.path.join("/tmp/nowhere", k + ".png") for k in a])
    else:
        c.true("files", [os.path.basename(s) for s in saved] == [k + ".png" for k in a])
    for k in a:
        same(c, "table", b[k], a[k])


def tool(c):
    """the plotting tool plots the targets asked by number or name, each into its own file"""
    names = ["Gamma", "Beta", "Beta b"]

    class Root(Group):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    root = Root(track_order=True)
    g = root.create_group("targets", track_order=True)
    made = []
    for n in names:
        g.create_group(n).create_group("table").create_dataset("table", data=1.0)

    def read(entry, path=None, **k):
        if path:
            entry = (root if isinstance(entry, str) else entry)[path]
        for n in names:
            if entry is g[n]["table"]["table"] or entry is g[n]["table"]:
                t = Table()
                t["chName"] = ["A"]
                t.meta["name"] = n
                return t
        raise OSError("no such table")

    class Plotter:
        def __init__(self, input_table, **k):
            self.t = input_table

        def plot_table(self, *a, **k):
            self.drawn = True

        def save_fig(self, name, **k):
            made.append((self.t.meta["name"], str(name), self.drawn))
    M = mod("utils.plotter")
    c.setattr(M, "Plotter", Plotter)
    c.setattr(M, "plt", Plt([]))
    table_files(c, read, hdf5=True)
    opened = []
    c.lib("h5py", "File", lambda name, *a, **k: opened.append(name) or root)
    how = c.choice("how", ["default", "all", "none", "one", "range", "list", "mixed", "name", "unknown", "both"])
    i, j = c.int("i", 0, 2), c.int("j", 0, 2)
    sp = c.choice("sp", ["", " "])
    if how in ("range", "mixed"):
        c.assume(i <= j)
    opt, want = {
        "default": ([], names), "all": (["-n", sp + "all" + sp], names), "none": (["-n", sp + "none"], []),
        "one": (["-n", "%s%d" % (sp, i)], [names[i]]), "range": (["-n", "%d%s-%s%d" % (i, sp, sp, j)], names[i:j + 1]),
        "list": (["-n", "%d,%s%d" % (i, sp, j)], [names[i], names[j]]), "mixed": (["-n", "%d-%d,%s0" % (i, j, sp)], names[i:j + 1] + [names[0]]),
        "name": (["-t", names[i]], [names[i]]), "unknown": (["-t", "Delta" + sp], []), "both": (["-n", "%d" % i, "-t", names[j]], None)}[how]
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "new", "dir")
        c.setattr(sys, "argv", ["exorad-plot", "-i", "in file.h5", "-o", out] + opt)
        with contextlib.redirect_stdout(None):
            if want is None:
                c.true("refused", raises(ValueError, M.main))
                return
            M.main()
        c.true("directory", os.path.isdir(out))
    c.true("input", opened == ["in file.h5"])
    c.true("plots", made == [(n, os.path.join(out, n + ".png"), True) for n in want])


HARNESSES = [
    H(tables, "3 rows in two channels, any wavelengths, signals and noises; foreground and custom noise of any of several names; tables with and without quantities"),
    H(efficiency, "two photometers of any transmission and efficiency (constant, or tabulated in 4 rows), limits in micron or nanometre"),
    H(unchanged, "two targets, one of which may fail, with and without foreground and output directory"),
    H(tool, "3 stored targets asked by any number, range, list or name"),
]
