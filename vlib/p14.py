"""P14: the VTK post-processor."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "exhaustive: orders of up to 4 calls (6 thorough) on two small models; random: models of up to 12 nodes, 8 elements of all supported shapes, two processors",
    "values are quarters of integers below 10000 (the files hold six significant digits); the reader accepts any layout of the legacy ASCII format",
    "elements of one type answer the same queries",
]
NN = {"VERTEX": 1, "TWIN_VERTEX": 2, "LINE": 2, "TRIANGLE": 3, "QUAD": 4, "TETRA": 4, "HEXAHEDRON": 8, "WEDGE": 6}
DT = ["UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"]
Q = [("S", q) for q in range(1, 6)] + [("V", q) for q in range(1, 4)] + [("T", q) for q in range(1, 6)]
W = {"S": 1, "V": 3, "T": 6}


def val(r):
    return r.choice([r.randint(-39999, 39999), r.randint(-20, 20)])


def rand_script(r):
    nn = r.randint(1, 12)
    ls = ["nodes " + " ".join(str(val(r)) for _ in range(3 * nn))]
    pool = r.choice([DT[:3], DT[:2], ["TEMP"], DT, ["UY"], ["ROTZ", "TEMP"]])
    shapes = [s for s in NN if NN[s] <= nn]
    types = {t: (r.choice(shapes), r.sample(pool, r.randint(0, min(3, len(pool)))), r.sample(DT, r.choice([0, 0, 1, 2])), r.sample(Q, r.randint(0, 5))) for t in range(1, 4)}
    els, used, eused = [], set(), set()
    for k in range(1, r.randint(1, 8) + 1):
        t = r.randint(1, 3)
        s, d, ed, q = types[t]
        n = r.sample(range(1, nn + 1), NN[s])
        if k == 1 and not d:
            d = [pool[0]]
            types[t] = (s, d, ed, q)
        ls.append("el %s %d %s ; %s ; %s" % (s, t, " ".join(map(str, n)), " ".join(d), " ".join(ed)))
        els.append(t)
        used |= {(a, x) for a in n for x in d}
        eused |= {(k, x) for x in ed}
    free = r.choice(sorted(used))   # a model has at least one unknown
    fx = [k for k in sorted(used) if r.random() < 0.3 and k != free]
    ls.append("init " + " ".join("%d %s" % k for k in fx))

    def results(p):
        for k, t in enumerate(els, 1):
            for kind, q in types[t][3]:
                if r.random() < p:
                    ls.append("res %d %s %d %s" % (k, kind, q, " ".join(str(val(r)) for _ in range(W[kind]))))

    def values(p):
        for k in sorted(used):
            if r.random() < p:
                ls.append("u %d %s %d" % (k + (val(r),)))
            if r.random() < p:
                ls.append("r %d %s %d" % (k + (val(r),)))
        for k in sorted(eused):
            if r.random() < p:
                ls.append("eu %d %s %d" % (k + (val(r),)))
    results(1)
    np = r.choice([1, 1, 2])
    for i in range(1, np + 1):
        ls.append("proc %d %s" % (i, ["a", "job_2_"][i - 1]))

    def asks(p):
        for i in range(1, np + 1):
            if r.random() < p:
                ls.append("all %d %d" % (i, r.randint(0, 2)))
            if r.random() < p:
                k = r.choice("SVT")
                ls.append("reg %d %s %s" % (i, k, " ".join(str(r.randint(1, {"S": 5, "V": 3, "T": 5}[k])) for _ in range(r.randint(1, 3)))))
    asks(0.6)
    for solve in range(r.choice([1, 1, 2])):
        values(0.5 if solve or r.random() < 0.5 else 0)
        for i in range(1, np + 1):
            ls.append("pre %d" % i)
        ns = r.choice([1, 1, 2, 3, 12])
        for k in range(1, ns + 1):
            values(0.5); results(0.4)
            if r.random() < 0.1:
                asks(0.3)
            for i in range(1, np + 1):
                ls.append("process %d %d" % (i, k if r.random() < 0.97 else r.choice([99, 100, 65535])))
        for i in range(1, np + 1):
            ls.append("post %d %d" % (i, ns))
        asks(0.4)
    return ls


def run(c):
    h = c.model("MCVtk", "MCVtkT.cfg" if c.thorough() else "MCVtk.cfg", scripts=True)
    exe = c.build("drv_vtk.cpp")
    if len(h) > 30000:
        h = c.rng.sample(h, 30000)
    sc = [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, rand_script(c.rng)) for i in range(800 if not c.thorough() else 8000)]
    c.validate("TraceVtk", "Trace.cfg", c.drive(exe, sc), exe, "vtk files")
