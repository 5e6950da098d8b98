"""P02: sparse matrices denote the accumulated map."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "values are integers, so that double arithmetic is exact and the specification's integer arithmetic applies",
    "exhaustive part: 2 matrices, patterns up to 2x2, histories of 5 calls (6 in the thorough tier); random part: up to 12x12, long histories, rows of up to 40 columns; few entries in matrices of more than 65,536 rows, columns or values",
    "copying a matrix object (never done by the library) is outside the specification",
]


def rand_script(r, big):
    ls, mats, nid = [], {}, 0
    # python keeps only what is needed to generate legal calls: shape, pattern and state of each matrix
    def new_pat(nr, nc, mx): return {"nr": nr, "nc": nc, "cap": min(mx, nc), "comp": False, "ent": set()}
    def canon(m, i, j): return (j, i) if mats[m]["sym"] and i > j else (i, j)
    for step in range(r.randint(10, 60 if big else 35)):
        ops = ["new"] if not mats else ["new", "share", "share0", "setsp", "reinit", "build"] + ["ent"] * 14 + ["comp"] * 3 + \
            ["addv"] * 14 + ["set"] * 2 + ["zero", "get", "get", "get", "dump", "bv", "bv", "btv", "cmp", "rt", "?", "?", "comped"]
        o = r.choice(ops)
        m = r.choice(list(mats)) if mats else None
        if o in ("new", "build"):
            if len(mats) > 4: continue
            nid += 1; sym = r.random() < 0.5
            nr = r.choice([1, 2, 3, 4, 5, 6, 8, 12] if big else [1, 2, 3, 4, 5]); nc = nr if sym else r.choice([1, 2, 3, 5, 7, 12])
            if o == "new":
                mx = r.choice([1, 2, 3, 100, 100, 100])
                ls.append("new %d %s %d %d %d" % (nid, "sym" if sym else "gen", nr, nc, mx))
                p = new_pat(nr, nc, mx)
                if sym: p["ent"] = {(i, i) for i in range(1, nr + 1)}
                mats[nid] = {"sym": sym, "p": p, "alloc": False}
            else:
                es = {}
                for _ in range(r.randint(0, nr * nc)):
                    i, j = r.randint(1, nr), r.randint(1, nc)
                    if sym and i > j: i, j = j, i
                    es[(i, j)] = r.randint(-9, 9)
                items = list(es.items()); r.shuffle(items)
                ls.append("build %d %s %d %d " % (nid, "sym" if sym else "gen", nr, nc) + " ".join("%d %d %d" % (k[0], k[1], v) for k, v in items))
                p = new_pat(nr, nc, 1); p["comp"] = True; p["ent"] = set(es)
                mats[nid] = {"sym": sym, "p": p, "alloc": True}
            continue
        M = mats[m]; P = M["p"]
        if o in ("share", "share0"):
            if len(mats) > 4: continue
            nid += 1
            ls.append("%s %d %s %d" % (o, nid, "sym" if M["sym"] else "gen", m))
            mats[nid] = {"sym": M["sym"], "p": P, "alloc": P["comp"]}
        elif o == "setsp":
            c = [k for k in mats if k != m and mats[k]["sym"] == M["sym"]]
            if not c: continue
            k = r.choice(c); ls.append("setsp %d %d" % (m, k))
            mats[m] = {"sym": M["sym"], "p": mats[k]["p"], "alloc": mats[k]["p"]["comp"]}
        elif o == "reinit":
            if r.random() < 0.6: continue
            nr = r.randint(1, 5); nc = nr if M["sym"] else r.randint(1, 6); mx = r.choice([1, 2, 100])
            ls.append("reinit %d %d %d %d" % (m, nr, nc, mx)); mats[m] = {"sym": M["sym"], "p": new_pat(nr, nc, mx), "alloc": False}
        elif o == "ent":
            i, j = r.randint(1, P["nr"]), r.randint(1, P["nc"]); q = canon(m, i, j)
            if P["comp"]: continue
            if q in P["ent"] or sum(1 for e in P["ent"] if e[0] == q[0]) < P["cap"]:
                ls.append("ent %d %d %d" % (m, i, j)); P["ent"].add(q)
            else: ls.append("? ent %d %d %d" % (m, i, j))
        elif o == "comp":
            if len(P["ent"]) < 3 and r.random() < 0.7: continue
            ls.append("comp %d" % m); P["comp"] = True; M["alloc"] = True
        elif o in ("addv", "set"):
            if not M["alloc"] or not P["ent"]: continue
            i, j = r.choice(sorted(P["ent"]))
            if M["sym"] and r.random() < 0.5: i, j = j, i
            ls.append("%s %d %d %d %d" % (o, m, i, j, r.randint(-9, 9)))
        elif o == "?":
            if not M["alloc"]: continue
            ls.append("? %s %d %d %d" % (r.choice(["addv", "set"]), m, r.randint(1, P["nr"]), r.randint(1, P["nc"])))
        elif o in ("zero", "dump"):
            if M["alloc"]: ls.append("%s %d" % (o, m))
        elif o == "comped": ls.append("comped %d" % m)
        elif o == "get":
            if M["alloc"]: ls.append("get %d %d %d" % (m, r.randint(1, P["nr"]), r.randint(1, P["nc"])))
        elif o in ("bv", "btv"):
            if not M["alloc"] or (o == "btv" and M["sym"]): continue
            n = P["nc"] if o == "bv" else P["nr"]
            ls.append("%s %d %d %d %d %s" % (o, m, r.choice([1, -1, 2, -3]), r.choice([0, 0, 2]), n, " ".join(str(r.choice([0, 1, -1, r.randint(-9, 9)])) for _ in range(n))))
        elif o == "cmp":
            c = [k for k in mats if mats[k]["alloc"]]
            if M["alloc"] and c: ls.append("cmp %d %d" % (m, r.choice(c)))
        elif o == "rt":
            if not M["alloc"] or len(mats) > 4: continue
            nid += 1; ls.append("rt %d %s %d" % (nid, "sym" if M["sym"] else "gen", m))
            p = dict(P); p["ent"] = set(P["ent"]); p["comp"] = True
            mats[nid] = {"sym": M["sym"], "p": p, "alloc": True}
            ls.append("cmp %d %d" % (nid, m))
    ls.append("dumpall 0")
    return ls


def dense_script(r):
    """wide rows, every column count: the position lookup for each row length and each column"""
    nc = r.randint(1, 40); sym = r.random() < 0.3; nr = nc if sym else r.randint(1, 4)
    ls = ["new 1 %s %d %d 100" % ("sym" if sym else "gen", nr, nc)]
    for i in range(1, nr + 1):
        cols = [j for j in range(1, nc + 1) if (not sym or j >= i) and r.random() < r.choice([0.3, 0.7, 1.0])]
        r.shuffle(cols)
        ls += ["ent 1 %d %d" % (i, j) for j in cols]
    # the number of entries per row of a symmetric matrix also counts transposed registrations
    ls.append("comp 1")
    ls2 = [l.split() for l in ls if l.startswith("ent")]
    for l in ls2:
        i, j = int(l[2]), int(l[3])
        if sym and r.random() < 0.5: i, j = j, i
        ls.append("addv 1 %d %d %d" % (i, j, r.randint(1, 50)))
    ls.append("dump 1")
    v = " ".join(str(r.randint(-5, 5)) for _ in range(nc)); ls.append("bv 1 2 0 %d %s" % (nc, v))
    if not sym:
        v = " ".join(str(r.randint(-5, 5)) for _ in range(nr)); ls.append("btv 1 -1 0 %d %s" % (nr, v))
    ls += ["zero 1", "dump 1"]
    return ls


def big_script(r, sym):
    """more rows, columns and values than 16 bits can count, few of them in use"""
    nr = r.choice([65537, 65600, 70001]); nc = nr if sym else r.choice([nr, 66000, 5])
    if not sym and r.random() < 0.3: nr, nc = nc, nr
    ls = ["new 1 %s %d %d 8" % ("sym" if sym else "gen", nr, nc)]; used = {}
    I = [1, 2, nr - 1, nr, max(1, nr - 65536), min(nr, 65536), min(nr, 65535)]; Jc = [1, 2, nc - 1, nc, max(1, nc - 65536), min(nc, 65536), min(nc, 65535)]
    E = set()
    if sym: I += [nr - 5]; Jc += [nr - 3, nr - 2, nr - 4]
    for _ in range(r.randint(8, 20)):
        i, j = r.choice(I + [r.randint(1, nr)]), r.choice(Jc + [r.randint(1, nc)])
        a = (min(i, j), max(i, j)) if sym else (i, j)
        if used.get(a[0], 1) >= 7 and a not in E: continue
        used[a[0]] = used.get(a[0], 1) + (a not in E); E.add(a); ls.append("ent 1 %d %d" % (i, j))
    if sym:       # a row of several entries behind 65,536 others
        E = {e for e in E if e[0] != nr - 5}; ls = [l for l in ls if l.split()[2] != str(nr - 5) and l.split()[3] != str(nr - 5)]
        for k in range(5): E.add((nr - 5, nr - k)); ls.append("ent 1 %d %d" % (nr - 5, nr - k))
    ls.append("comp 1"); E = sorted(E)
    for _ in range(6 if sym else 12):
        i, j = r.choice(E)
        if sym and r.random() < 0.5: i, j = j, i
        o = r.random()
        if o < 0.5: ls.append("%s 1 %d %d %d" % (r.choice(["addv", "addv", "set"]), i, j, r.randint(-9, 9)))
        elif o < 0.75 or sym: ls.append("get 1 %d %d" % (i, j)); ls.append("get 1 %d %d" % ((i + 65535) % nr + 1, (j + 65535) % nc + 1))
        else:
            t = not sym and r.random() < 0.5; J = sorted({(i if t else j), (r.choice(E)[0 if t else 1])})
            ls.append("%s 1 %d %s" % ("spt" if t else "sp", r.choice([1, -2]), " ".join("%d %d" % (k, r.randint(1, 9)) for k in J)))
    ls += ["rt 2 %s 1" % ("sym" if sym else "gen")] + ["get 2 %d %d" % e for e in E[:5]]
    ls += ["share 3 %s 1" % ("sym" if sym else "gen"), "addv 3 %d %d 5" % E[-1], "get 1 %d %d" % E[-1]]
    return ls


def run(c):
    scripts = c.model("MCSparse", "MCSparse.cfg" if not c.thorough() else "MCSparseT.cfg", scripts=True)
    if c.thorough() and len(scripts) > 60000:
        scripts = c.rng.sample(scripts, 60000)
    exe = c.build("drv_sparse.cpp")
    mc = [("mc%d" % i, c.to_lines(h) + ["dumpall 0"]) for i, h in enumerate(scripts)]
    rnd = [("rnd%d" % i, rand_script(c.rng, i % 3 == 0)) for i in range(1500 if not c.thorough() else 12000)]
    den = [("den%d" % i, dense_script(c.rng)) for i in range(120 if not c.thorough() else 1200)]
    c.validate("TraceSparse", "Trace.cfg", c.drive(exe, mc), exe, "replay of every model transition")
    den += [("big%d" % i, big_script(c.rng, i % 6 == 0)) for i in range(12 if not c.thorough() else 100)]
    c.validate("TraceSparse", "Trace.cfg", c.drive(exe, rnd + den), exe, "random histories")
