"""Tasks: parameters given by name reach the task, defaults fill the others, unknown ones are refused."""
from collections import OrderedDict

from checks.lib import *


def make(names, defaults, keep=None):
    Task = mod("tasks.task").Task

    class T(Task):
        def __init__(self):
            for n, d in zip(names, defaults):
                if d is None:
                    self.addTaskParam(n, "parameter " + n)
                else:
                    self.addTaskParam(n, "parameter " + n, d)

        def execute(self):
            self.ran = getattr(self, "ran", 0) + 1
            self.set_output([self.get_task_param(n) for n in names])
    return T


def parameters(c):
    """sequence of calls, each with any subset of the parameters"""
    v = c.reals("v", 9, -10, 10)
    T = make(["a", "b", "c"], [None, v[6], v[7]])
    O = make(["a", "z"], [v[8], None])
    t, t2, o = T(), T(), O()
    n = 2 if not c.thorough else 3
    for k in range(n):
        s = c.int("call%d" % k, 0, 8)
        use = {m: v[(3 * k + i) % 6] for i, m in enumerate("abc") if s < 8 and (s >> i) & 1}
        who = t if k % 2 == 0 or not c.flag("other%d" % k) else t2
        if s == 8:
            before = getattr(who, "ran", 0)
            c.true("refused", raises(ValueError, who, a=v[0], z=1))
            c.true("not_run", getattr(who, "ran", 0) == before)
            continue
        got = who(**use)
        want = [use.get("a"), use.get("b", v[6]), use.get("c", v[7])]
        for g, w in zip(got, want):
            if w is None:
                c.true("missing_is_none", g is None)
            else:
                c.eq("parameter", g, w)
        c.true("same_output", who.get_output() is got)
    got = o(z=v[0])
    c.eq("other_task", got[0], v[8])
    c.eq("other_task", got[1], v[0])
    c.true("positional", raises(TypeError, t, v[0]))


def unknown(c):
    """no task of the package accepts a parameter it does not know"""
    T = mod("tasks")
    Task = mod("tasks.task").Task
    x = c.real("x", -1, 1)
    every = sorted(n for n in dir(T) if isinstance(getattr(T, n), type) and issubclass(getattr(T, n), Task) and getattr(T, n) is not Task)
    c.true("some", len(every) >= 15)
    for n in every:
        c.true("refused_" + n, raises(ValueError, getattr(T, n)(), no_such_parameter=x))


def channel_list(c):
    """channels of one kind, in payload order, whatever capitals"""
    m = c.int("kinds", 0, 7)
    cls = [["Photometer", "photometer"], ["Spectrometer", "SPECTROMETER"]]
    kinds = [(m >> k) & 1 for k in range(3)]
    opt = {"channel": OrderedDict(("c%d" % k, {"value": "c%d" % k, "channelClass": V(cls[kinds[k]][c.int("w%d" % k, 0, 1)])}) for k in (2, 0, 1))}
    ask = c.int("ask", 0, 1)
    if c.flag("lone"):
        # a single channel section is not gathered under its name
        opt = {"channel": opt["channel"]["c1"]}
        opt["channel"]["detector"] = {"delta_pix": V(18 * u.um)}
        got = mod("tasks").GetChannelList()(options=opt, channel_type=["Photometer", "spectrometer"][ask])
        c.true("lone_list", got == ["c1"] * (kinds[1] == ask))
        return
    got = mod("tasks").GetChannelList()(options=opt, channel_type=["Photometer", "spectrometer"][ask])
    c.true("list", got == ["c%d" % k for k in (2, 0, 1) if kinds[k] == ask])


def built(c):
    """every channel is built as the class it asks for, under its own name; other classes are refused"""
    set_R(c, 5)
    stub_psf(c, np.array([[0.5]]))
    kind = c.choice("kind", ["photometer", "Photometer", "spectrometer", "SPECTROMETER", "camera"])
    lone = c.flag("lone")
    q = c.real("q", 0, 1)
    d = (spec_desc if "spec" in kind.lower() else phot_desc)(c)
    d["channelClass"], d["value"] = V(kind), "X"
    d["detector"]["qe"] = V(c.scalar_q(q, ""))
    e = phot_desc(c)
    e["channelClass"], e["value"] = V("Photometer"), "Y"
    pl = payload(c)
    pl["channel"] = d if lone else OrderedDict([("X", d), ("Y", e)])
    B = mod("tasks").BuildChannels()
    if kind == "camera":
        c.true("refused", raises(ValueError, B, payload=pl, write=False, output=None))
        return
    if not lone and c.flag("numbered"):
        # the second channel of a name is numbered in the payload
        e["value"] = "X"
        pl["channel"] = OrderedDict([("X", d), ("X_1", e)])
        ch = B(payload=pl, write=False, output=None)
        c.true("numbered", list(ch) == ["X", "X_1"] and set(ch["X_1"].table["chName"]) == {"X_1"})
        return
    ch = B(payload=pl, write=False, output=None)
    M = mod("models.instruments")
    c.true("names", list(ch) == (["X"] if lone else ["X", "Y"]) and all(ch[k].name == k for k in ch))
    c.true("class", type(ch["X"]) is (M.Spectrometer if "spec" in kind.lower() else M.Photometer))
    c.true("labels", set(ch["X"].table["chName"]) == {"X"})
    c.eq("own_efficiency", u.Quantity(ch["X"].table["QE"])[0], q)
    if not lone:
        c.eq("other_efficiency", u.Quantity(ch["Y"].table["QE"])[0], 0.7)
        tab = mod("tasks").MergeChannelsOutput()(channels=ch)
        c.true("merged", list(tab["chName"]) == ["X"] * len(ch["X"].table) + ["Y"])


HARNESSES = [
    H(parameters, "any values; sequences of 2 (quick) or 3 (thorough) calls with every subset of the parameters or an unknown one"),
    H(unknown, "every task of the package"),
    H(channel_list, "3 channels of any kind and capitals, or a single one"),
    H(built, "five channel classes, alone or with another channel, any efficiency"),
]
