"""A run of the tool: what the command line asks is what is run; only the output is written, and it holds this run only."""
import hashlib
import inspect
import os
import shutil
import sys

from checks.lib import *
from checks.C41 import files, place, results, run, table_same, values
from checks.C42 import Plt


def command(c):
    """every option of the command line reaches the pipeline"""
    M = mod("exorad")
    calls = []
    sig = inspect.signature(M.standard_pipeline)

    def pipeline(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
    c.setattr(M, "standard_pipeline", pipeline)
    style = c.choice("style", ["short", "long", "backwards"])
    long = style == "long"
    out, full, debug, log, plot, threads = [c.flag(k) for k in ("out", "full", "debug", "log", "plot", "threads")]
    n = c.int("n", 1, 8) if threads else 1
    name = lambda s, l: l if long else s  # noqa: E731
    a = [[name("-p", "--payload"), "pay load.xml"], [name("-t", "--targetList"), "list.csv"]]
    for on, v in ((out, [name("-o", "--output"), "some/out.h5"]), (full, [name("-c", "--full_contrib")]), (debug, [name("-d", "--debug")]), (log, [name("-l", "--log")]),
                  (plot, [name("-P", "--plot")]), (threads, [name("-n", "--nThreads"), "%d" % n])):
        if on:
            a.append(v)
    if style == "backwards":
        a.reverse()
    c.setattr(sys, "argv", ["exorad"] + [x for v in a for x in v])
    M.main()
    c.true("once", len(calls) == 1)
    k = calls[0]
    c.true("payload", k["options"] == "pay load.xml")
    c.true("targets", k["target_list"] == "list.csv")
    c.true("output", k["output"] == ("some/out.h5" if out else None))
    c.true("full", bool(k["full_contrib"]) == full)
    c.true("debug", bool(k["debug"]) == debug)
    c.true("log", bool(k["log"]) == log)
    c.true("plot", bool(k["plot"]) == plot)
    c.eq("threads", k["n_thread"], n)


def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def other_list(d, name, star="Gamma"):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("star name,star M [M_sun],star Teff [K],star R [R_sun],star D [pc]\n%s,1.0,5000.0,1.0,20.0\n" % star)
    return p


def rerun(c):
    """whatever the output file was before, it holds this run; the tables are those of a run into a new file"""
    v = values(c)
    was = c.choice("was", ["none", "run", "garbage", "newdir"])
    with place(c) as (d, out):
        x, l = files(c, d, v, ["phot"], False)
        l2 = other_list(d, "list2.csv")
        os.mkdir(os.path.join(d, "new"))
        fresh = os.path.join(d, "new", "fresh.h5")
        run(x, l2, fresh)
        a = results(fresh)
        if was == "run":
            run(x, l, out)
            c.true("first", sorted(results(out)) == ["Alpha", "Beta b"])
        elif was == "garbage":
            with open(out, "w") as f:
                f.write("anything")
        elif was == "newdir":
            out = os.path.join(d, "some", "where", "o.h5")
        before = {k: digest(k) for k in (x, l, l2, fresh)}
        run(x, l2, out)
        c.true("inputs_kept", before == {k: digest(k) for k in before})
        b = results(out)
        c.true("inputs_copied", {"p.xml", "list2.csv"} <= set(os.listdir(os.path.dirname(out))))
    c.true("targets", sorted(a) == sorted(b) == ["Gamma"])
    table_same(c, "same", a["Gamma"], b["Gamma"])


def stored(c):
    """the payload stored by an earlier run, in a file named as the output or not: the output holds this run, the earlier run is kept"""
    v = values(c)
    how = c.choice("how", ["other", "named_alike", "same_dir", "over", "itself", "relative", "link", "hard"])
    with place(c) as (d, out):
        x, l = files(c, d, v, ["phot"], c.flag("frg"))
        star = c.choice("star", ["Gamma", "Alpha"])
        l2 = other_list(d, "list2.csv", star)
        run(x, l, out)
        a = results(out)
        before = digest(out)
        new = {"over": os.path.join(d, "over.h5"), "other": os.path.join(d, "b", "x.h5"), "named_alike": os.path.join(d, "b", os.path.basename(out)), "same_dir": os.path.join(os.path.dirname(out), "x.h5"),
               "itself": out, "relative": os.path.relpath(out),
               "link": os.path.join(d, "link.h5"), "hard": os.path.join(d, "hard.h5")}[how]
        if how == "link":
            os.symlink(out, new)
        if how == "hard":
            os.link(out, new)
        if how in ("itself", "relative", "link", "hard"):
            c.true("refused", raises(Exception, run, out, l2, new))
            b = None
        else:
            if how == "over":
                run(x, other_list(d, "list3.csv", "Old"), new)
            run(out, l2, new)
            b = results(new)
        c.true("kept", os.path.exists(out) and digest(out) == before)
        again = results(out)
    c.true("earlier", sorted(again) == sorted(a) == ["Alpha", "Beta b"])
    if b is None:
        return
    c.true("targets", sorted(b) == [star])
    # both stars are alike
    table_same(c, "same", a["Alpha"], list(b.values())[0])


def plots(c):
    """asking for plots changes nothing in the output and saves the efficiencies and every target"""
    v = values(c)
    full = c.flag("full")
    with place(c) as (d, out):
        x, l = files(c, d, v, c.choice("kinds", [["phot"], ["spec"]]), c.flag("frg"))
        run(x, l, out, full_contrib=full)
        a = results(out)
        saved = []
        plt = Plt(saved)
        for m in ("exorad", "utils.plotter"):
            c.setattr(mod(m), "plt", plt)
        o2 = os.path.join(d, "new", "o.h5")
        run(x, l, o2, full_contrib=full, plot=True)
        b = results(o2)
        where = os.path.dirname(o2)
    c.true("plots", sorted(os.path.relpath(s, where) for s in saved) == ["Alpha.png", "Beta b.png", "efficiency.png"])
    c.true("targets", sorted(a) == sorted(b))
    for n in a:
        c.true("columns", a[n].colnames == b[n].colnames)
        table_same(c, "same", a[n], b[n])


HARNESSES = [
    H(command, "every combination of options, short, long or in the reverse order, any number of threads in 1 to 8"),
    H(rerun, "any transmissions, efficiency, telescope area, emissivity, dark current, read noise and NoiseX; output file absent, left by another run, not a result, or in a new directory"),
    H(stored, "same values; payload file in another directory, in the same one, saved over an earlier run, named as the output or the output itself"),
    H(plots, "same values; photometer or spectrometer, two targets"),
]
