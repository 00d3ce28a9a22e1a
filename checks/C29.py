"""Target lists: every target is observed as if it were alone."""
from checks.lib import *
from collections import OrderedDict

N = 5
GRID = logspace(0.5, 3.0, N)
UNITS = dict(starSignal="ct/s", starFlux="W/m2", sky_signal="ct/s", zodi_signal="ct/s", total_noise=None, frameTime="s", saturation_time="s", foreground_transmission="")


TN, CN = ["T9", "B b", "a1"], ["Z", "M"]  # not in alphabetical order


def sed_file(c, f):
    """custom SED file: any flux"""
    T = Table()
    T["Wavelength"] = Column(np.array(GRID), unit="um")
    T["Sed"] = Column(c.arr(f), unit="W/(m2 um)")
    table_files(c, lambda *a, **k: T.copy())


def tgt(c, name, R, D=None, bad=None):
    t = mod("models.target").Target()
    t.name = name
    t.star = SimpleNamespace(name=name + " star", M=1.0 * u.M_sun, Teff=5000.0 * u.K, R=c.scalar_q(R, "m"), D=(D or 1e3) * u.m, luminosity=0.0)
    if bad == "noR":
        t.star.R = None
    if bad == "nostar":
        del t.star
    return t


def world(c, kinds=("phot",), frg=True, noise=True, qe=None):
    set_R(c, N)
    stub_psf(c, np.array([[0.4, 0.1]]))
    q, f = c.real("q", 0.1, 1), c.reals("f", N, 1e-3, 10)
    sed_file(c, f)
    chans = {}
    for i, k in enumerate(kinds):
        d = phot_desc(c, wl_min=V((0.9 + 0.3 * i) * u.um), wl_max=V((2.0 + 0.3 * i) * u.um))
        d["value"] = CN[i]
        d["detector"]["qe"] = V(c.scalar_q(q, ""))
        if qe:
            d["detector"]["qe"] = {"datafile": V("q"), "data": table(c, {CN[i]: qe}, [0.4, 1.1, 3.2])}
        d["detector"].update(well_depth=V(1e5 * u.ct), f_well_depth=V(1.0), freqNDR=V(0.0 * u.Hz), dark_current=V(c.scalar_q(1.0, "ct/s")), read_noise=V(c.scalar_q(2.0, "ct")))
        pl = payload(c, False, 1.0)
        ch = mod("models.instruments").Photometer(CN[i], d, pl)
        ch.build()
        chans[CN[i]] = ch
    pl["common"]["sourceSpectrum"] = {"value": "custom", "CustomSed": V("s%s.csv" % c.uid)}
    tr = c.reals("tr", N, 0.1, 1)
    if frg:
        T = Table()
        T["Wavelength"] = Column(np.array(GRID), unit="um")
        T["Radiance"] = Column(c.arr([0.5] * N), unit="W/(m2 um sr)")
        T["Transmission"] = c.arr(tr)
        pl["common"]["foreground"] = {"value": "sky", "data": T}
    return pl, chans, f, tr, q


def observe(pl, chans, targets, n=1, lo=0.5, hi=3.0):
    return mod("tasks").ObserveTargetlist()(targets=targets, payload=pl, channels=chans, wl_range=(lo * u.um, hi * u.um), plot=False, out_dir=None, n_thread=n)


def num(t, k):
    return u.Quantity(t.table[k])


def same(c, label, a, b):
    c.true(label + "_columns", a.table.colnames == b.table.colnames)
    c.true(label + "_rows", len(a.table) == len(b.table))
    for k in a.table.colnames:
        if k == "chName":
            c.true(label + "_names", list(a.table[k]) == list(b.table[k]))
            continue
        c.eq(label, num(a, k), num(b, k), scale=1e-20)


def check(c, out, names, Rs, pl, f, tr, q, frg=True, nch=1):
    """each target has exactly the counts of its own star through its own sky"""
    c.true("targets", list(out) == names)
    for nm, R in zip(names, Rs):
        t = out[nm].table
        for i in range(nch):
            s2 = R * R * 1e-6
            dens = [a * (b if frg else 1.0) * w * PH for a, b, w in zip(f, tr, GRID)]
            sig = trapz(dens, GRID) * s2 * q
            c.eq("star", t["starSignal"].to("ct/s").value[i], sig, scale=1e17)
            c.eq("flux", t["starFlux"].to("W/m2").value[i], trapz(f, GRID) * s2)
        c.true("rows", len(t) == nch)
        c.true("sky", ("foreground_transmission" in t.colnames) == frg)
        c.true("sky_light", ("sky_signal" in t.colnames) == frg)
        if frg:
            px = trapz([0.5 * q * omega(20.0, 30.0) * 18e-6 ** 2 * w * PH for w in GRID], GRID)
            for i in range(nch):
                c.eq("sky_in_pixel", t["sky_MaxSignal_inPixel"].to("ct/s").value[i], px)
        c.true("name", t.meta["name"] == nm)


def several(c):
    """two or three targets: each gets its own counts, whatever the others"""
    frg = c.flag("frg")
    n = c.int("n", 1, 3)
    pl, ch, f, tr, q = world(c, frg=frg)
    R = c.reals("R", n, 1, 10)
    names = [TN[i] for i in range(n)]
    out = observe(pl, ch, [tgt(c, a, r) for a, r in zip(names, R)])
    check(c, out, names, R, pl, f, tr, q, frg)


def failing(c):
    """a target that cannot be observed is left out and does not affect the others"""
    pl, ch, f, tr, q = world(c)
    R = c.reals("R", 3, 1, 10)
    where = c.int("where", 0, 2)
    bad = c.choice("bad", ["noR", "nostar"])
    ts = [tgt(c, TN[i], R[i], bad=bad if i == where else None) for i in range(3)]
    out = observe(pl, ch, ts)
    ok = [i for i in range(3) if i != where]
    check(c, out, [TN[i] for i in ok], [R[i] for i in ok], pl, f, tr, q)


def again(c):
    """observing a target again (alone or after another payload with other foregrounds) gives the same table"""
    qe = [0.3, 0.9, 0.5]
    pl, ch, f, tr, q = world(c, ("phot", "phot"), qe=qe)
    R = c.real("R", 1, 10)
    t = tgt(c, "T", R)
    cols = {k: list(x.table.colnames) for k, x in ch.items()}
    o1 = observe(pl, ch, [t])["T"]
    first = o1.table.copy()
    how = c.choice("how", ["same", "nofrg", "zodi", "range"])
    pl2 = pl
    if how == "range":
        o2 = observe(pl, ch, [t], lo=0.3, hi=5.0)["T"]
        same(c, "other_range", o2, observe(pl, world(c, ("phot", "phot"), qe=qe)[1], [tgt(c, "T", R)], lo=0.3, hi=5.0)["T"])
    elif how != "same":
        pl2 = dict(pl)
        pl2["common"] = dict(pl["common"])
        del pl2["common"]["foreground"]
        if how == "zodi":
            pl2["common"]["foreground"] = {"value": "zodiacal", "zodiacFactor": V(2.0)}
        o2 = observe(pl2, ch, [t])["T"]
        fresh = observe(pl2, world(c, ("phot", "phot"), qe=qe)[1], [tgt(c, "T", R)])["T"]
        same(c, "other_payload", o2, fresh)
    o3 = observe(pl, ch, [t])["T"]
    same(c, "again", o3, SimpleNamespace(table=first))
    same(c, "first_result_kept", o1, SimpleNamespace(table=first))
    c.true("results_apart", o1 is not o3)
    c.true("channels_kept", {k: list(x.table.colnames) for k, x in ch.items()} == cols)


def threads(c):
    """with n_thread > 1 (workers get copies, any order of completion) the same tables come out"""
    import copy
    import concurrent.futures as cf
    pl, ch, f, tr, q = world(c)
    n = 3
    R = c.reals("R", n, 1, 10)
    bad = c.choice("bad", [None, 0, 2])
    rev = c.flag("reversed")

    class Pool:
        def __init__(self, max_workers=None, **k):
            c.true("workers", max_workers == 2)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def shutdown(self, *a, **k):
            pass

        def submit(self, fn, *a, **k):
            f = cf.Future()
            try:
                f.set_result(fn(*copy.deepcopy(a), **copy.deepcopy(k)))
            except Exception as e:
                f.set_exception(e)
            return f

        def map(self, fn, *its, timeout=None, chunksize=1):
            jobs = [tuple(copy.deepcopy(x) for x in a) for a in zip(*its)]
            res = {}
            for i in (reversed(range(len(jobs))) if rev else range(len(jobs))):
                res[i] = fn(*jobs[i])
            return iter([res[i] for i in range(len(jobs))])
    mk = lambda: [tgt(c, TN[i], R[i], bad="noR" if i == bad else None) for i in range(n)]  # noqa: E731
    a = observe(pl, ch, mk())
    c.lib("concurrent.futures", "ProcessPoolExecutor", Pool)
    b = observe(pl, ch, mk(), 2)
    c.true("targets", list(a) == list(b) == [TN[i] for i in range(n) if i != bad])
    for k in a:
        same(c, "threads", b[k], a[k])


HARNESSES = [
    H(several, "1..3 stars of any radius, any SED, sky transmission and efficiency; foreground or none; 5-point grid"),
    H(failing, "3 targets, one without radius or star at any place"),
    H(again, "two channels; the same target observed again, also after another payload without or with other foregrounds"),
    H(threads, "3 targets, worker processes modelled by a pool that copies its jobs and runs them in either order"),
]
