"""Run a harness on concrete inputs against the unmodified code (no shims).

  replay.py FILE.json            one saved counterexample; exit 1 if it violates
  replay.py --batch IN OUT       used by the checks
"""
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, VERIF)


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def one(mod, job, tier):
    from symx import ctx as cx
    from symx import state
    h = next(x for x in mod.HARNESSES if x.name == job["harness"])
    state.restore()
    if job.get("history"):
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(40)
        try:
            cx.rerun(h.fn, job["history"], tier)
        except TimeUp:
            pass
        finally:
            signal.alarm(0)
    c = cx.ConcreteCtx(job["env"], tier)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(40)
    out = dict(status="ok", label=None, msg="", rec=[])
    try:
        h.fn(c)
    except cx.Skip:
        out["status"] = "skip"
    except cx.CheckFailed as ex:
        out.update(status="fail", label=str(ex).split(":")[0].split("[")[0].split(" ")[0], msg=str(ex)[:500])
    except TimeUp:
        out.update(status="fail", label="nontermination", msg="no result within 40 s")
    except Exception as ex:
        out.update(status="fail", label="exception", msg="%s: %s | %s" % (
            type(ex).__name__, str(ex)[:300], traceback.format_exc()[-400:]))
    finally:
        signal.alarm(0)
        try:
            c.undo()
        except Exception:
            pass
    out["rec"] = c.rec
    return out


def main():
    from symx import shims
    shims.install_concrete(REPO)
    import importlib
    from symx import state
    if sys.argv[1] == "--batch":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module("checks." + d["pid"])
        state.snapshot()
        res = [one(mod, j, d["tier"]) for j in d["jobs"]]
        json.dump(res, open(sys.argv[3], "w"))
        return
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module("checks." + d["pid"])
    state.snapshot()
    o = one(mod, d, d.get("tier", "quick"))
    print(o["status"], o["msg"])
    sys.exit(1 if o["status"] == "fail" else 0)


if __name__ == "__main__":
    main()
