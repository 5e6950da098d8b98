#!/usr/bin/env python3
"""detect.py [ID[:Pxx]...]: run the check of each seeded change's property (or Pxx) against a scratch clone with the change applied."""
import json, os, subprocess, sys, time
W = "/tmp/w/det"; S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
for a in sys.argv[1:] or sorted(os.listdir(S)):
    i, _, p = a.partition(":")
    p = p or json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    sh("git checkout -q -- . && git pull -q", cwd=W)
    r = sh("git apply %s/%s/patch.diff" % (S, i), cwd=W)
    assert r.returncode == 0, (i, r.stdout)
    t = time.time()
    r = sh("/verif/check %s" % p, env=dict(os.environ, NLA3D_REPO=W, NLA3D_EVIDENCE="/tmp/w/evidence"))
    last = [l for l in r.stdout.splitlines() if l.strip()][-2:]
    print("%-26s %s %s %.0fs" % (i, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t), flush=True)
    if r.returncode == 1: print("     ", last[0][:230])
    elif r.returncode != 0: print(r.stdout[-600:])
sh("git checkout -q -- .", cwd=W)
