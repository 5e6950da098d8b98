"""P01: DoF registration and equation numbering."""
from vlib.fegen import Model, DOFT
LEVEL = "model_checking"
ASSUMPTIONS = [
    "exhaustive: DoF tables of up to 3 entities and 3 types, histories of 5 calls (6 thorough); model life cycles of 2 nodes, 2 elements, 1 constraint, 10 calls",
    "random: up to 60 nodes, 20 elements; tables of up to 131,075 entities or 70,000 degrees of freedom",
    "registration happens through Element::pre and MpcCollection::pre, as FEStorage::initDofs requires",
]


def dof_script(r):
    n = r.randint(1, 12)
    ls = ["labels", "create %d" % n]
    have = set()
    for _ in range(r.randint(3, 40)):
        o = r.random()
        if o < 0.7:
            e = r.randint(1, n)
            ts = [r.choice(DOFT) for _ in range(r.randint(1, 4))]
            ls.append("add %d %s" % (e, " ".join(ts)))
            have.update((e, t) for t in ts)
        elif o < 0.85 and have:
            e, t = r.choice(sorted(have))
            ls.append("mark %d %s %d %d" % (e, t, r.randint(1, 99), r.randint(0, 1)))
        elif o < 0.97:
            ls.append("dump")
        else:
            n = r.randint(1, 8); have = set()
            ls += (["clear", "dump"] if r.random() < 0.5 else []) + ["create %d" % n]
    return ls + ["dump"]


def big_script(r):
    """a table of more entities or degrees of freedom than 16 bits can count"""
    n = r.choice([65536, 65540, 70001, 131075])
    es = [1, 2, n, n - 1, 65535, 65536, n - 65535] + [r.randint(1, n) for _ in range(4)]
    es = [e for e in es if 1 <= e <= n]
    ls = ["create %d" % n]; have = set()
    for _ in range(r.randint(6, 18)):
        e = r.choice(es); ts = [r.choice(DOFT) for _ in range(r.randint(1, 4))]
        ls.append("add %d %s" % (e, " ".join(ts))); have.update((e, t) for t in ts)
        if r.random() < 0.3:
            e, t = r.choice(sorted(have)); ls.append("mark %d %s %d %d" % (e, t, r.choice([3, 65536, 65539, 100000]), r.randint(0, 1)))
        if r.random() < 0.2: ls.append("dump")
    return ls + ["dump"]


def full_script(r):
    n = r.choice([33000, 66000, 70000]); k = 2 if n < 65536 else 1
    ts = r.sample(DOFT, k)
    ls = ["create %d" % n, "fill " + " ".join(ts), "dump"]
    for e in r.sample([1, n, 5, 8197, n - 1], 3):
        ls.append("add %d %s" % (e, " ".join(r.sample(DOFT, 2))))
    ls += ["mark %d %s 66001 1" % (n, ts[0]), "dump"]
    return ls


def number_script(r, big):
    m = Model(r, maxn=r.choice([1, 3, 8, 30, 60]) if big else r.choice([1, 2, 3, 5]), maxe=20 if big else 5)
    for _ in range(r.choice([0, 0, 1, 3])):
        m.add_mpc()
    if r.random() < 0.4:
        m.add_rigid()
        if r.random() < 0.4:
            m.add_rigid()
    for e in m.els:          # the matrices do not matter here
        e["path"] = 0
    ls = m.lines()
    ks = m.keys()
    def cons():
        p = r.choice([0, 0.2, 0.5, 0.9])
        con = [k for k in ks if r.random() < p]
        con = con[1:] if len(con) == len(ks) else con
        r.shuffle(con)
        return ["con %s %d %s" % k for k in con + [k for k in con if r.random() < 0.2]]
    ls += ["initdofs"] + cons() + ["number"]
    if True:
        for _ in range(r.choice([0, 1, 2])):
            ls += ["delsol"] if r.random() < 0.5 else []
            if r.random() < 0.3:
                e = m.add_el(); e["path"] = 0
                ls.append([l for l in m.lines() if l.startswith("elem")][-1])
                ks = m.keys()
            ls += ["initdofs"] + cons() + ["number"]
    return ls


def run(c):
    t = c.thorough()
    d = c.model("MCDofs", "MCDofsT.cfg" if t else "MCDofs.cfg", scripts=True)
    f = c.model("MCFE", "MCFET.cfg" if t else "MCFE.cfg", scripts=True)
    if len(d) > 60000:
        d = c.rng.sample(d, 60000)
    f = [x for x in f if x[-1] == "number"]
    exe = c.build("drv_dof.cpp")
    sc = [("mc%d" % i, c.to_lines(h) + ["dump"]) for i, h in enumerate(d)]
    sc += [("rnd%d" % i, dof_script(c.rng)) for i in range(600 if not t else 6000)]
    sc += [("big%d" % i, big_script(c.rng)) for i in range(12 if not t else 200)]
    sc += [("full%d" % i, full_script(c.rng)) for i in range(2 if not t else 16)]
    c.validate("TraceDofs", "Trace.cfg", c.drive(exe, sc), exe, "DoF tables")
    exe = c.build("drv_fe.cpp")
    sc = [("life%d" % i, c.to_lines(h)) for i, h in enumerate(f)]
    sc += [("num%d" % i, number_script(c.rng, i % 4 == 0)) for i in range(800 if not t else 8000)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "numbering")
