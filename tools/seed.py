"""Plant a bug: seed.py SPEC.py ; SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.
Confirms it (builds, stable tests pass, demo passes without / fails with it) and runs the property's check."""
import json, os, shutil, subprocess, sys, tempfile

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def tests():
    o = tempfile.mktemp()
    sh("bash /opt/vp/test.sh %s" % o)
    r = json.load(open(o)); os.remove(o)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = set(r["passed"] if isinstance(r, dict) else r)
    return [t for t in base if t not in p]

def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    open(d + "/demo.py", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok = True
    if r.returncode:
        print("DEMO FAILS ON CLEAN TREE\n" + r.stdout[-1500:]); ok = False
    try:
        for f, old, new in g["EDITS"]:
            s = open("/repo/" + f).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            # the changed lines must come from the base commit
            open("/repo/" + f, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print("BUILD FAILS\n" + b.stdout[-800:]); ok = False
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo with bug: rc=%d  %s" % (r.returncode, r.stdout.strip().splitlines()[-1:] ))
        if not r.returncode: print("DEMO PASSES WITH BUG"); ok = False
        if "--notest" not in sys.argv:
            t = tests()
            if t: print("TESTS BROKEN", t); ok = False
        c = sh("./check.sh %s quick" % g["PROPERTY"], cwd="/verif", timeout=900)
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l or "INCONC" in l]
        print("check rc=%d %s" % (c.returncode, v[:3]))
        if c.returncode != 1: print("NOT CAUGHT\n" + c.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    # lines touched must come from the base commit
    import difflib
    for f in {e[0] for e in g["EDITS"]}:
        A = open("/repo/" + f).read()
        B = A
        for e in g["EDITS"]:
            if e[0] == f: B = B.replace(e[1], e[2])
        bl = sh("git -C /repo blame -s --root %s" % f).stdout.splitlines()
        A, B = A.splitlines(), B.splitlines()
        for t, i1, i2, j1, j2 in difflib.SequenceMatcher(None, A, B, False).get_opcodes():
            for i in (range(i1, i2) if i1 < i2 else [i1 - 1, i1]) if t != "equal" else []:
                if not bl[i].startswith("b5cd8f0"): print("NOT ORIGINAL:", bl[i]); ok = False
    print(g["ID"], "OK" if ok else "REJECTED")

main(sys.argv[1])
