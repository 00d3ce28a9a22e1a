"""Check driver: explore every harness of a property, replay, report, write evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


class H:
    """One harness: fn(ctx) plus its stated bounds."""

    def __init__(self, fn, bounds, functions=(), tiers=("quick", "thorough"), max_paths=4000,
                 timeout=20000, validate=2, note="", history=True):
        self.fn, self.bounds, self.functions = fn, bounds, list(functions)
        self.tiers, self.max_paths, self.timeout, self.validate = tiers, max_paths, timeout, validate
        self.name = fn.__name__
        self.note = note
        self.history = history


def load_check(pid):
    return importlib.import_module("checks." + pid)


def explore(pid, hname, tier, seed, budget, second=False):
    """Symbolic exploration of one harness (in a worker process); `second`: every path comes
    after an earlier use of the code on other (concrete) inputs in the same process."""
    from symx import core, ctx as cx, state as st
    mod = load_check(pid)
    h = next(x for x in mod.HARNESSES if x.name == hname)
    t0 = time.time()
    budget = max(budget - t0, 40)
    core.reset_atoms()
    eng = core.Engine(timeout_ms=h.timeout, max_paths=h.max_paths, deadline=t0 + budget)
    out = dict(harness=hname, candidates=[], error=None, labels=[], checks=0, covered=[])
    labels = set()
    covered = set()
    samples = []
    state = dict(checks=0)
    known = [k["signature"] for k in load_known(pid)]
    hist = None
    if second:
        out.update(labels=[], samples=[], guided=[], stats={}, unknown_branches=0, second=True)
        hist = cx.history(h.fn, random.Random(seed * 104729 + sum(map(ord, hname))), tier)
        st.restore()
        if hist is None:
            out.update(history=None, wall_s=round(time.time() - t0, 2))
            return out
        out["history"] = hist

    def prof(frame, ev, arg):
        if ev == "call":
            co = frame.f_code
            if "/exorad/" in co.co_filename:
                covered.add(os.path.relpath(co.co_filename, REPO) + ":" + co.co_qualname)

    def one(e):
        st.restore()
        if hist is not None:
            core.set_engine(core._NoEngine())
            cx.rerun(h.fn, hist, tier)
            core.set_engine(e)
        c = cx.SymCtx(e, tier)
        if eng.stats.paths < 3:
            sys.setprofile(prof)
        core.pending.clear()
        try:
            h.fn(c)
            if core.pending:
                raise core.pending[0]
        except Exception as ex:
            if core.pending and not isinstance(core.pending[0], Exception):
                raise core.pending[0]
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()
            c.candidates.append(dict(label="exception", env=None, exc=True,
                                     msg="%s: %s" % (type(ex).__name__, ex),
                                     tb=traceback.format_exc()[-1500:]))
            r, env = e.solve(e.pc, linear=False, model=True)
            if r == "unsat":
                c.candidates.pop()
                e.stats.obl_unsat += 1
            else:
                c.candidates[-1]["env"] = env
        finally:
            sys.setprofile(None)
            c.undo()
        state["checks"] += c.nchecks
        labels.update(c.labels)
        for cd in c.candidates:
            cd["path"] = [list(x) for x in e.trace]
            out["candidates"].append(cd)
        if len(samples) < 3:
            samples.append(dict(harness=hname, path_condition=[
                "%r %s 0" % (core.Sym(p), rel) for rel, p in e.pc[:12]], checks=sorted(c.labels)[:20]))
        fresh = [cd for cd in out["candidates"] if "%s:%s" % (hname, cd["label"]) not in known]
        if fresh:
            # whatever happens next, this run is not quiet: do not explore for long
            state.setdefault("first", time.time())
            sat = sum(1 for cd in fresh if cd.get("env") is not None)
            late = time.time() - state["first"]
            if sat >= 12 or (sat and late > 20) or (len(fresh) >= 3 and late > 60):
                raise core.Inconclusive("stopped after the first counterexamples")

    try:
        eng.run(one)
    except core.Inconclusive as ex:
        out["error"] = "inconclusive: %s" % ex
    except BaseException as ex:
        out["error"] = "engine: %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    # guided runs -> concrete traces for validation of the encoding
    rng = random.Random(seed * 7919 + sum(map(ord, hname)))
    guided = []
    tries = 0
    want = h.validate + (12 if out["candidates"] and all(cd.get("env") is None for cd in out["candidates"]) else 0)
    if second or (out["error"] and not out["candidates"]):
        want = 0
    if out["error"] and out["candidates"] and want == h.validate:
        want = 0
    while len(guided) < want and tries < 60 * want and time.time() < t0 + budget:
        tries += 1
        env = {}
        g = cx.Guided(env, rng)
        st.restore()
        core.set_engine(g)
        c = cx.SymCtx(g, tier)
        core.pending.clear()
        try:
            h.fn(c)
            if core.pending:
                raise core.pending[0]
            g._env()
            cache = {}
            rec = [[l, [core.eval_sym(v, env, cache) for v in vs]] for l, vs in c.rec]
            guided.append(dict(env=dict(env), rec=rec))
        except core.PathAbort:
            pass
        except Exception as ex:
            out["guided_error"] = "%s: %s" % (type(ex).__name__, ex)
        finally:
            core.set_engine(core._NoEngine())
            c.undo()
    out["guided"] = guided
    out["labels"] = sorted(labels)
    out["checks"] = state["checks"]
    out["covered"] = sorted(covered)
    out["samples"] = samples
    out["stats"] = eng.stats.as_dict()
    out["unknown_branches"] = eng.unknown_branches
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _worker(args):
    try:
        return explore(*args)
    except BaseException as ex:
        return dict(harness=args[1], candidates=[], guided=[], labels=[], checks=0, covered=[], samples=[],
                    stats={}, unknown_branches=0, wall_s=0,
                    error="worker: %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:]))


def run_replays(pid, jobs, tier):
    """Replay assignments on the unmodified code in a separate process."""
    if not jobs:
        return []
    import tempfile
    with tempfile.TemporaryDirectory(prefix="symx_") as d:
        fi, fo = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        json.dump(dict(pid=pid, jobs=jobs, tier=tier), open(fi, "w"))
        env = dict(os.environ)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "symx", "replay.py"), "--batch", fi, fo],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if not os.path.exists(fo):
            raise RuntimeError("replay process failed: %s" % p.stdout.decode()[-2000:])
        return json.load(open(fo))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "6")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from symx import shims
    rc = 2
    try:
        shims.install(REPO)
    except BaseException as ex:
        print("ERROR: cannot import the code under test: %s: %s" % (type(ex).__name__, ex))
        traceback.print_exc()
        sys.exit(2)
    mod = load_check(pid)
    from symx import state
    state.snapshot()
    hs = [h for h in mod.HARNESSES if tier in h.tiers and (not a.only or a.only in h.name)]
    budget = 600 if tier == "quick" else 6000
    # one deadline for all the harnesses of the check
    args = [(pid, h.name, tier, seed, time.time() + budget) for h in hs]
    if not os.environ.get("SYMX_NOHIST"):
        args += [(pid, h.name, tier, seed, time.time() + budget, True) for h in hs if h.history]
    if len(args) > 1 and a.jobs > 1:
        with mp.get_context("fork").Pool(min(a.jobs, len(args)), maxtasksperchild=1) as pool:
            res = pool.map(_worker, args, chunksize=1)
    else:
        res = [_worker(x) for x in args]

    # replay: candidates and validation traces
    jobs, meta = [], []
    for r in res:
        seen = {}
        for cd in r["candidates"]:
            if cd.get("env") is None:
                continue
            k = cd["label"]
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 4:
                continue
            jobs.append(dict(harness=r["harness"], env=cd["env"], history=r.get("history")))
            meta.append(("cand", r, cd))
        for g in r["guided"]:
            jobs.append(dict(harness=r["harness"], env=g["env"]))
            meta.append(("trace", r, g))
    try:
        rep = run_replays(pid, jobs, tier)
    except Exception as ex:
        print("ERROR: replay failed: %s" % ex)
        sys.exit(2)

    known = load_known(pid)
    violations, errors, known_hit = [], [], {}
    validated = mismatched = 0
    validated_h = set()
    reproduced = set()
    for (kind, r, x), o in zip(meta, rep):
        if kind == "cand":
            x["replay"] = o
            if o["status"] == "fail":
                reproduced.add((r["harness"], x["label"]))
                sig = "%s:%s" % (r["harness"], o["label"])
                kf = next((k for k in known if sig.startswith(k["signature"])), None)
                if kf:
                    known_hit[kf["signature"]] = kf
                else:
                    violations.append((r, x, o, sig))
        else:
            if o["status"] == "fail" and not o.get("skip"):
                # the validation input itself violates the property on the real code
                sig = "%s:%s" % (r["harness"], o["label"])
                if not any(sig.startswith(k["signature"]) for k in known):
                    x["label"] = o["label"]
                    x["msg"] = "validation trace"
                    x["trace_fail"] = True
                    violations.append((r, x, o, sig))
                continue
            if o["status"] == "skip":
                continue
            ok = compare(x["rec"], o["rec"])
            if ok:
                validated += 1
                validated_h.add(r["harness"])
            else:
                mismatched += 1
                if a.v:
                    print("MISMATCH", r["harness"], ok, diff(x["rec"], o["rec"]))
    # failing validation traces of a harness that has solver counterexamples are redundant
    solver_h = {r["harness"] for r, x, o, s in violations if not x.get("trace_fail")}
    # (one without a solver counterexample shows an encoding gap, but the failure itself was
    # replayed on the real code, so it is reported too)
    conf = [v for v in violations if not v[1].get("trace_fail") or v[0]["harness"] not in solver_h]
    incomplete = []
    for r in res:
        if r["error"] and ("budget" in r["error"] or "path bound" in r["error"]) and not r["candidates"] and r["stats"].get("obl_unsat", 0) and validated_h & {r["harness"]}:
            # held on everything explored so far; the evidence says that the exploration is not complete
            incomplete.append("%s: %s after %d paths" % (r["harness"], r["error"], r["stats"].get("paths", 0)))
        elif r.get("second") and r["error"] and not r["candidates"]:
            incomplete.append("%s (second use): %s" % (r["harness"], r["error"].splitlines()[0]))
        elif r.get("second") and r["history"] is None:
            incomplete.append("%s (second use): no first use found" % r["harness"])
        elif r["error"]:
            errors.append("%s: %s" % (r["harness"], r["error"]))
        for cd in r["candidates"]:
            if (r["harness"], cd["label"]) in reproduced:
                continue
            o = cd.get("replay")
            if o is None and cd.get("env") is not None:
                continue  # same label replayed elsewhere
            errors.append("%s: unresolved candidate %s: %s%s" % (
                r["harness"], cd["label"], cd["msg"],
                "" if o is None else " (did not reproduce: %s)" % o["status"]))
            if a.v: print("CAND", cd.get("env"))
            if a.v and cd.get("tb"):
                print(cd["tb"])
        if not r["error"] and not r.get("second"):
            if r["checks"] == 0 or r["stats"].get("paths", 0) == 0:
                errors.append("%s: vacuous (no completed path reached an assertion)" % r["harness"])
            hh = next(h for h in hs if h.name == r["harness"])
            if hh.validate and r["harness"] not in validated_h and not conf:
                errors.append("%s: no concrete trace validated the encoding (%s)" % (
                    r["harness"], r.get("guided_error")))

    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    done = set()
    for r, x, o, sig in conf:
        if sig in done:
            continue
        done.add(sig)
        path = os.path.join(rdir, "%s-%d.json" % (pid, len(done)))
        json.dump(dict(pid=pid, tier=tier, harness=r["harness"], env=x["env"], history=r.get("history"), label=o["label"], msg=o["msg"]),
                  open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("counterexample in %s: %s" % (r["harness"], o["msg"]))
    for sig, k in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    wall = round(time.time() - t0, 2)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=tot.get("paths", 0), transitions=tot.get("decisions", 0),
        traces_validated_against_impl=validated,
        traces_mismatched=mismatched,
        samples=[s for r in res for s in r["samples"]][:6],
        explanation="states = feasible execution paths of the real code explored symbolically; transitions = symbolic branch decisions settled by Z3; each assertion is discharged by Z3 for all values allowed by the path condition.",
        incomplete=incomplete,
        paths_pruned=tot.get("aborted", 0), assertions=tot.get("assertions", 0),
        obligations=tot.get("obligations", 0), discharged=tot.get("obl_unsat", 0),
        solver_queries=tot.get("queries", 0), solver_unsat=tot.get("unsat", 0), solver_sat=tot.get("sat", 0),
        solver_unknown=tot.get("unknown", 0), solver_seconds=round(tot.get("solver_s", 0.0), 2),
        branches_settled_by_intervals=tot.get("interval", 0),
        unknown_branch_feasibility=sum(r["unknown_branches"] for r in res),
        harnesses=[dict(name=h.name, bounds=h.bounds, note=h.note, paths=r["stats"].get("paths", 0),
                        checks=r["checks"], wall_s=r["wall_s"], labels=r["labels"][:60]) for h, r in zip(hs, res)],
        second_use=[dict(name=r["harness"], first_use=r["history"], paths=r["stats"].get("paths", 0), checks=r["checks"],
                         wall_s=r["wall_s"]) for r in res if r.get("second")],
        functions_encoded=sorted({f for r in res for f in r["covered"]}),
    ), assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=wall, violations=len(done))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d decisions, %d/%d obligations discharged, %d queries, solver %.1fs, %d traces validated (%d mismatched), wall %.1fs" % (
        pid, tier, len(hs), tot.get("paths", 0), tot.get("decisions", 0), tot.get("obl_unsat", 0), tot.get("obligations", 0),
        tot.get("queries", 0), tot.get("solver_s", 0.0), validated, mismatched, wall))
    for i in incomplete:
        print("INCOMPLETE:", i)
    if lines:
        for l in lines:
            print(l)
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("ERROR:", e)
        sys.exit(2)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    "floating point is modelled as real arithmetic with double-precision coefficients; assertions tolerate a relative difference of 1e-6",
    "array sizes and sampling resolution are the small ones stated in each harness's bounds",
    "logging and formatting have empty bodies; scipy.interpolate.interp1d, scipy.stats.binned_statistic, numpy.convolve and array creation are replaced by models (symx/shims.py) validated against the real libraries by the concrete traces",
    "the network is absent (import-time version check stubbed)",
]


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def close(a, b):
    if a != a and b != b:
        return True
    if a == b:
        return True
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-290


def compare(r1, r2):
    if [l for l, _ in r1] != [l for l, _ in r2]:
        return False
    return all(len(a) == len(b) and all(close(x, y) for x, y in zip(a, b)) for (_, a), (_, b) in zip(r1, r2))


def diff(r1, r2):
    for (l, a), (m, b) in zip(r1, r2):
        if l != m:
            return (l, m)
        if len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)):
            return (l, a, b)
    return (len(r1), len(r2))


if __name__ == "__main__":
    main()
