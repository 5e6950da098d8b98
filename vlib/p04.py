"""P04: the assembled global system is the superposition of element contributions and MPC rows."""
from vlib.fegen import Model, DOFT
LEVEL = "model_checking"
ASSUMPTIONS = [
    "element matrices are integers, so the sums are exact; elements list distinct nodes",
    "rigid bodies are assembled at zero rotation here (finite rotations: P06)",
    "models up to 8 nodes, 6 elements of every shape, 3 nodal and 2 element DoF types each, 4 constraints",
]


def low_level(r, k):
    m = Model(r, maxn=r.choice([1, 2, 3, 4, 5, 8]), maxe=r.choice([1, 2, 4, 6]))
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        m.add_mpc()
    if r.random() < 0.35:
        m.add_rigid()
    ls = m.lines()
    tr = r.random() < 0.5
    ks = m.keys()
    if len(ks) < 1:
        return None
    con = [x for x in ks if r.random() < r.choice([0.0, 0.3, 0.7])]
    if len(con) == len(ks):
        con = con[1:]
    r.shuffle(con)
    if tr:
        ls.append("transient 1")
    ls += ["initdofs"] + ["con %s %d %s" % x for x in con] + ["con %s %d %s" % x for x in con[:1]] + ["number", "initsol", "assemble"]
    for _ in range(r.choice([0, 1, 2])):
        if r.random() < 0.6:
            ls.append("scaleel %d %d" % (r.randint(1, len(m.els)), r.choice([2, -1, 3])))
        ls.append("assemble")
    if r.random() < 0.25:
        # the same mesh once more with other constraints
        con = [x for x in ks if r.random() < 0.4][:-1] if len(ks) > 1 else []
        ls += (["delsol"] if r.random() < 0.5 else []) + ["initdofs"] + ["con %s %d %s" % x for x in con] + ["number", "initsol", "assemble"]
    return ls


def run(c):
    h = c.model("MCFE", "MCFET.cfg" if c.thorough() else "MCFE.cfg", scripts=True)
    h = [x for x in h if x[-1] == "assemble"]
    exe = c.build("drv_fe.cpp")
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, [("life%d" % i, c.to_lines(x)) for i, x in enumerate(h)]), exe, "life cycles of the model")
    n = 1200 if not c.thorough() else 12000
    sc = []
    while len(sc) < n:
        ls = low_level(c.rng, len(sc))
        if ls:
            sc.append(("asm%d" % len(sc), ls))
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "random models")
