"""P19: models that are edited, solved, edited and solved again; dumps of the assembled system; elements by name."""
from vlib import solvegen
from vlib.fegen import Model, DOFT, SHAPES
LEVEL = "model_checking"
ASSUMPTIONS = [
    "models whose reduced system is regular (decided exactly, in rationals) whenever they are solved; linear solver, at most 5 nodes and 4 elements at a time, up to 4 solutions per model",
    "the number of components is read through their names and indices only (no accessor)",
    "a dump is read back by the driver's own reader; comparison with a changed model is judged when the change exceeds the resolution of the trace (1e-4)",
]
NAMES = ["PLANE41", "SOLID81", "TRUSS3", "TRIANGLE4", "TETRA0", "TETRA1", "QUADTH", "SurfaceLINETH", "INTER0", "INTER3"]
ODD = ["plane41", "PLANE", "PLANE410", "TRUSS2", "UNDEFINED", "SOLID8", "surfacelineth", "INTER", "X"]


class Life:
    """a model and the script of what happened to it"""
    def __init__(self, r, comps=True):
        self.r = r
        while True:
            self.m = Model(r, maxn=r.choice([2, 3, 4, 5]), maxe=r.choice([1, 2, 3, 4]))
            if r.random() < 0.4:
                self.m.add_el(dofs=r.sample(DOFT[:3], r.randint(1, 3)), shapes=["LINE", "TRIANGLE", "VERTEX"])
                self.m.add_rigid()
            if r.random() < 0.4:
                self.m.add_mpc()
            if self.bc():
                break
        self.ls = ["fe %d 0" % self.m.S] if r.random() < 0.5 else None
        ml = self.m.lines()
        if self.ls is None:
            self.ls = [ml[0]]
        else:
            self.nodes(0)
        self.ls += ml[1:]
        self.solver = False
        self.nc = 0

    def bc(self):
        """boundary conditions from scratch; False when the model cannot be solved"""
        m, r = self.m, self.r
        for _ in range(30):
            m.fixes, m.loads = [], []
            m.rand_bc(pfix=r.choice([0.1, 0.3, 0.5]))
            for (ma, ds, ss) in m.rigids:
                for d in DOFT[:6]:
                    if r.random() < 0.5 and not any(f[0] == ma and f[1] == d for f in m.fixes):
                        m.fixes.append((ma, d, r.choice([0, 0, 1, -1])))
            if m.solution() is not None:
                return True
        return False

    def nodes(self, n0):
        """the nodes above n0 are created"""
        m, r = self.m, self.r
        k = n0
        while k < m.nn:
            n = r.randint(1, m.nn - k)
            if n > 1 or r.random() < 0.5:
                self.ls.append("mknodes %d" % n)
                self.ls += ["movenode %d %d %d %d" % (q + 1, *m.pos[q]) for q in range(k, k + n) if m.pos[q] != [0, 0, 0]]
                k += n
            else:
                self.ls.append("addnode %d %d %d" % tuple(m.pos[k]))
                k += 1

    def elems(self, k0):
        self.ls += [x for x in self.m.lines() if x.startswith("elem")][k0:]

    def edit(self):
        m, r = self.m, self.r
        w = r.choice(["node", "node", "move", "el", "renode", "els", "nodes", "mpcs", "colls", "mpc", "mpcedit", "mpcedit", "mesh", "scale", "rigid", "comp", "transient"])
        keep = (m.nn, [list(p) for p in m.pos], [dict(e) for e in m.els], list(m.mpcs), list(m.rigids))
        n0 = len(self.ls)
        if w == "node":
            k = r.randint(1, 2)
            o = m.nn
            if m.nn + k > 5: return
            m.nn += k; m.pos += [[r.randint(-3, 3) for _ in range(3)] for _ in range(k)]
            self.nodes(o)
            if r.random() < 0.7:
                o = len(m.els); m.add_el(shapes=["VERTEX", "LINE", "TRIANGLE"]); self.elems(o)
        elif w == "move":
            k = r.randint(1, m.nn); m.pos[k - 1] = [r.randint(-3, 3) for _ in range(3)]
            self.ls.append("movenode %d %d %d %d" % (k, *m.pos[k - 1]))
        elif w == "el":
            o = len(m.els); m.add_el(shapes=["VERTEX", "LINE", "TRIANGLE", "QUAD"]); self.elems(o)
        elif w == "renode":
            k = r.randint(1, len(m.els)); e = dict(m.els[k - 1])
            e["nodes"] = r.sample(range(1, m.nn + 1), len(e["nodes"])); m.els[k - 1] = e
            self.ls.append("renode %d %s" % (k, " ".join(map(str, e["nodes"]))))
        elif w == "els":
            self.ls.append("delels"); m.els = []
            for _ in range(r.randint(1, 3)): m.add_el(shapes=["VERTEX", "LINE", "TRIANGLE", "QUAD", "TWIN"])
            self.elems(0)
        elif w == "nodes":
            self.ls.append("delnodes"); o = m.nn; m.nn = r.randint(max([1] + [n for e in m.els for n in e["nodes"]] + [n for _, t in m.mpcs for (n, _, _) in t] + [n for a, _, s in m.rigids for n in [a] + s]), 5)
            m.pos = [[r.randint(-3, 3) for _ in range(3)] for _ in range(m.nn)]
            self.nodes(0)
        elif w == "mpcs":
            if not m.mpcs and not m.rigids: return
            self.ls.append("delmpcs"); m.mpcs = []
            if r.random() < 0.4: self.addmpc()
        elif w == "colls":
            if not m.rigids: return
            self.ls.append("delcolls"); m.rigids = []
            if r.random() < 0.3: self.addrigid()
        elif w == "mpc": self.addmpc()
        elif w == "rigid": self.addrigid()
        elif w == "mpcedit":
            if not m.mpcs: return
            k = r.randint(1, len(m.mpcs)); b, t = m.mpcs[k - 1]; b = r.choice([0, 1, -2, 4]); c = r.choice([1, -1, 2, 3])
            m.mpcs[k - 1] = (b, [(t[0][0], t[0][1], c)] + list(t[1:]))
            self.ls.append("mpcedit %d %d %d" % (k, b, c))
        elif w == "mesh":
            self.ls.append("delmesh"); self.nc = 0
            q = Model(r, maxn=4, maxe=3); m.nn, m.pos, m.els, m.mpcs, m.rigids = q.nn, q.pos, q.els, [], []
            self.nodes(0); self.elems(0)
            if r.random() < 0.4: self.addmpc()
        elif w == "scale":
            k = r.randint(1, len(m.els)); f = r.choice([2, -1]); e = dict(m.els[k - 1])
            for q in "KCM": e[q] = [[v * f for v in row] for row in e[q]]
            e["F"] = [v * f for v in e["F"]]; m.els[k - 1] = e
            self.ls.append("scaleel %d %d" % (k, f))
        elif w == "comp":
            self.comp(); return
        elif w == "transient":
            self.ls.append("transient %d" % r.randint(0, 1))
        # an edit which leaves a model that cannot be solved is not made
        ks = {k for k in m.keys()}
        bad = any(("N", n, d) not in ks for _, t in m.mpcs for (n, d, _) in t) or any(("N", s, d) not in {k for j in range(len(m.els)) for k in m.elkeys(j)} for _, ds, ss in m.rigids for s in ss for d in ds)
        if bad or not self.bc():
            m.nn, m.pos, m.els, m.mpcs, m.rigids = keep[0], keep[1], keep[2], keep[3], keep[4]
            if "delmesh" in self.ls[n0:]: self.nc = self.nc0
            del self.ls[n0:]

    def addmpc(self):
        o = len(self.m.mpcs); self.m.add_mpc(); self.ls += [x for x in self.m.lines() if x.startswith("mpc")][o:]

    def addrigid(self):
        o = len(self.m.rigids)
        if self.m.add_rigid(): self.ls += [x for x in self.m.lines() if x.startswith("rigid")][o:]

    def comp(self):
        r = self.r
        if r.random() < 0.2: self.ls.append("delcomps")
        else: self.ls.append("comp %s %s %s" % (r.choice("ABC"), r.choice(["NODE", "ELEM", "BAD", "node"]), " ".join(str(r.randint(1, 99)) for _ in range(r.randint(0, 4)))))
        if r.random() < 0.5: self.ls.append("comps")

    def solve(self, dump):
        r, m = self.r, self.m
        self.ls += ["solver lin"]
        solvegen.recs(r, self.ls)
        self.ls += m.bc_lines() + (["elnodes"] if r.random() < 0.5 else []) + ["solve", "get", "seen"] + (["comps"] if r.random() < 0.3 else [])
        if dump: self.ls.append(dump)


def life(r):
    while True:
        x = Life(r)
        if x.bc(): break
    for k in range(r.choice([2, 2, 3, 4])):
        for _ in range(r.choice([1, 1, 2, 3]) if k else r.choice([0, 1])):
            x.nc0 = x.nc
            x.edit()
        if not x.bc(): break
        x.solve(None)
    return x.ls + ["bye"]


def dumps(r):
    """the system is dumped, solved again unchanged or changed, and compared with the file"""
    while True:
        x = Life(r)
        if x.bc(): break
    if r.random() < 0.4: x.ls.append("transient 1")
    if r.random() < 0.5: x.ls += solvegen.units(r, 1.0)
    x.solve("dump")
    for _ in range(r.choice([1, 2])):
        x.ls.append("cmpdump")
        w = r.choice(["again", "load", "edit", "small", "fix"])
        if w == "edit":
            x.edit()
            if not x.bc(): break
            x.solve("cmpdump")
        elif w == "again": x.solve("cmpdump")
        elif w == "load":
            k = r.choice(x.m.nodal()); keep = list(x.m.loads); x.m.loads.append((k[1], k[2], r.choice([1, -1])))
            if x.m.solution() is None: x.m.loads = keep; continue
            x.solve("cmpdump")
        elif w == "fix":
            k = r.choice(x.m.nodal()); keep = list(x.m.fixes); x.m.fixes.append((k[1], k[2], r.choice([0, 1, -1])))
            if x.m.solution() is None: x.m.fixes = keep; continue
            x.solve("cmpdump")
        else:
            k = r.randint(1, len(x.m.els)); e = dict(x.m.els[k - 1]); old = x.m.els[k - 1]
            for q in "KCM": e[q] = [[v * -1 for v in row] for row in e[q]]
            e["F"] = [-v for v in e["F"]]; x.m.els[k - 1] = e
            if x.m.solution() is None: x.m.els[k - 1] = old; continue
            x.ls.append("scaleel %d -1" % k); x.solve("cmpdump")
    return x.ls + ["bye"]


def run(c):
    exe = c.build("drv_fe.cpp", asan=True)
    h = c.model("MCModel", "MCModelT.cfg" if c.thorough() else "MCModel.cfg", scripts=True)
    r = c.rng
    if len(h) > (1200 if not c.thorough() else 20000):
        h = r.sample(h, 1200 if not c.thorough() else 20000)
    n = 400 if not c.thorough() else 6000
    sc = [("mc%d" % i, c.to_lines(x) + ["bye"]) for i, x in enumerate(h)]
    sc += [("life%d" % i, life(r)) for i in range(n)]
    sc += [("dump%d" % i, dumps(r)) for i in range(n)]
    sc += [("make%d" % i, ["fe 10000 1 0 0 0", "make %s %d" % (t, r.randint(0, 5))]) for i, t in enumerate(NAMES + ODD)]
    c.validate("TraceModel", "TraceModel.cfg", c.drive(exe, sc), exe, "edited models")
