#!/usr/bin/env python3
"""plant.py ID...: confirm seeded/ID in a scratch clone (/tmp/w/repo, scripts /tmp/w/{build,test}.sh): the patch applies,
builds, the stable tests pass with it, the demo fails with it and passes without it.
plant.py --new ID PROPERTY: write seeded/ID/patch.diff from the changes in the scratch clone."""
import json, os, subprocess, sys, time
W = "/tmp/w"; R = W + "/repo"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean(): sh("git checkout -q -- . && git pull -q", cwd=R)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
clean()
b = sh("bash %s/build.sh" % W)
assert b.returncode == 0, b.stdout[-2000:]
for i in sys.argv[1:]:
    t0 = time.time(); d = "%s/%s" % (S, i)
    d0 = sh("bash %s/demo.sh" % d, cwd=R)
    a = sh("git apply %s/patch.diff" % d, cwd=R)
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); clean(); continue
    t = sh("bash %s/test.sh %s/o.json" % (W, W))
    passed = set(json.load(open(W + "/o.json"))["passed"])
    d1 = sh("bash %s/demo.sh" % d, cwd=R)
    ok = d0.returncode == 0 and d1.returncode != 0 and stable <= passed
    print(i, "OK" if ok else "BAD", "demo without:", d0.returncode, "with:", d1.returncode, "lost tests:", sorted(stable - passed), "%.0f s" % (time.time() - t0), flush=True)
    if not ok: print(d0.stdout[-1500:], d1.stdout[-800:], t.stdout[-800:] if not passed else "")
    clean(); sh("bash %s/build.sh" % W)
