"""P03: block partitioned symmetric matrices."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "exhaustive: 2 and 3 blocks of 0..2 rows, two matrices sharing a pattern, histories of 6 calls (7 thorough); random: up to 5 blocks of up to 6 rows, few entries in splits of up to 131,074 rows",
    "integer values",
]


def rand_script(r):
    nb = r.choice([2, 2, 3, 3, 4, 4, 5])
    sz = [r.randint(0, 6 if nb < 4 else 3) for _ in range(nb)]
    n = sum(sz)
    if n == 0:
        return rand_script(r)
    ls = ["new 1 " + " ".join(map(str, sz)), "rows 1"]
    k = 1
    def on():
        nonlocal k
        k += 1
        ls.append("on %d %d" % (k, r.randint(1, k - 1)))
        ls.append("rows %d" % k)
    ent = set()
    for _ in range(r.randint(0, n * n)):
        i, j = r.randint(1, n), r.randint(1, n)
        ls.append("ent %d %d %d" % (r.randint(1, k), i, j)); ent.add((i, j))
        if r.random() < 0.1 and k < 4:
            on()
    if r.random() < 0.5 and k < 4:
        on()
    ls += ["comp %d" % m for m in r.sample(range(1, k + 1), k)]
    for _ in range(r.randint(0, 3 * n)):
        o = r.random()
        if ent and o < 0.85:
            i, j = r.choice(sorted(ent))
            if r.random() < 0.5: i, j = j, i
            ls.append("addv %d %d %d %d" % (r.randint(1, k), i, j, r.randint(-9, 9)))
        elif o < 0.9:
            ls.append("zero %d" % r.randint(1, k))
        elif o < 0.95:
            ls.append("try %d %d %d" % (r.randint(1, k), r.randint(1, n), r.randint(1, n)))
        elif k < 4:
            on()
    return ls + ["dumpall"]


def big_script(r):
    """more rows than 16 bits can count, in any split"""
    sz = r.choice([[70000, 9], [9, 70000], [40000, 30001], [3, 65536, 40], [1, 1, 66000, 2], [33000, 1, 33000], [65535, 2, 65537]]); n = sum(sz)
    ls = ["new 1 " + " ".join(map(str, sz)), "rows 1"]
    if r.random() < 0.5: ls.append("on 2 1")
    I = [1, 2, n, n - 1, sz[0], sz[0] + 1, 65535, 65536, n - 65536 if n > 65536 else 3]; E = []
    for _ in range(r.randint(6, 14)):
        i, j = r.choice(I + [r.randint(1, n)]), r.choice(I + [r.randint(1, n)])
        E.append((i, j)); ls.append("ent 1 %d %d" % (i, j))
    ls += ["comp 1"] + (["comp 2"] if "on 2 1" in ls else ["on 2 1"])
    for _ in range(r.randint(6, 12)):
        i, j = r.choice(E)
        if r.random() < 0.5: i, j = j, i
        ls.append("addv %d %d %d %d" % (r.randint(1, 2), i, j, r.randint(1, 9)))
    return ls + ["show 1", "show 2", "zero 1", "show 1", "show 2"]


def run(c):
    h = c.model("MCBlock", "MCBlockT.cfg" if c.thorough() else "MCBlock.cfg", scripts=True)
    if len(h) > 80000:
        h = c.rng.sample(h, 80000)
    exe = c.build("drv_block.cpp")
    sc = [("mc%d" % i, c.to_lines(x) + ["dumpall"]) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, rand_script(c.rng)) for i in range(1500 if not c.thorough() else 15000)]
    sc += [("big%d" % i, big_script(c.rng)) for i in range(14 if not c.thorough() else 140)]
    c.validate("TraceBlock", "Trace.cfg", c.drive(exe, sc), exe, "block matrices")
