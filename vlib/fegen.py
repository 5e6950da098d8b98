"""Random finite element models (scripts for drv_fe).  The generator decides only what is a legal call
sequence and whether the linear system has a unique, moderate solution; expected results are the
specification's business."""
from fractions import Fraction as Fr

DOFT = ["UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"]
SHAPES = {"VERTEX": 1, "TWIN": 2, "LINE": 2, "TRIANGLE": 3, "QUAD": 4, "TETRA": 4, "WEDGE": 6, "HEXA": 8}
SIZES = {1, 2, 3, 4, 6, 8, 9, 12, 16, 24}


def solve(A, b):
    """exact elimination; None when singular"""
    n = len(A)
    M = [[Fr(x) for x in A[i]] + [Fr(b[i])] for i in range(n)]
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        inv = 1 / M[i][i]
        M[i] = [x * inv for x in M[i]]
        for k in range(n):
            if k != i and M[k][i] != 0:
                f = M[k][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] for i in range(n)]


class Model:
    definite = False    # only positive definite matrices

    def __init__(self, r, maxn=5, maxe=4, shapes=None, big=False, nodofs=False, wide=False):
        self.r = r
        self.nn = r.randint(1, maxn)
        if wide:
            self.nn = max(self.nn, 6)
        self.pos = [[r.randint(-3, 3) for _ in range(3)] for _ in range(self.nn)]
        self.els, self.mpcs, self.rigids, self.fixes, self.loads = [], [], [], [], []
        self.S = 10000
        for _ in range(r.randint(1, maxe)):
            self.add_el(shapes)

    def add_el(self, shapes=None, dofs=None, transient=True, nonlinear=False, tang=1, dom=None, sh=None):
        r = self.r
        c = [s for s in (shapes or list(SHAPES)) if SHAPES[s] <= self.nn]
        if sh is None:
            w = [4 if SHAPES[s] <= 2 else 2 if SHAPES[s] <= 4 else 1 for s in c]
            sh = r.choices(c, w)[0]
        nk = SHAPES[sh]
        nodes = r.sample(range(1, self.nn + 1), nk)
        if dofs is None:
            dofs = r.sample(DOFT, r.choice([1, 1, 2, 2, 3]))
        if nk >= 6:
            dofs = dofs[:1]
        edofs = r.sample(DOFT, r.choice([0, 0, 0, 1, 2])) if nk < 6 else []
        n = nk * len(dofs) + len(edofs)
        paths = [0, 4] + ([1, 2, 3] if nk * len(dofs) in SIZES else [])
        path = r.choice(paths)
        def sym(lo, hi, d):
            return [[r.randint(lo, hi) if j > i else (r.randint(1, 4) + d if j == i else 0) for j in range(n)] for i in range(n)]
        d = (2 * n if dom is None else dom)
        K = sym(-3, 3, d if r.random() < 0.7 else 0) if not self.definite else sym(-3, 3, 3 * n)
        e = {"sh": sh, "path": path, "tang": tang, "nl": nonlinear, "dofs": dofs, "edofs": edofs, "nodes": nodes, "K": K,
             "F": [r.choice([0, 0, r.randint(-5, 5)]) for _ in range(n)],
             "C": sym(-2, 2, 0 if not self.definite else 2 * n), "M": sym(-2, 2, 0 if not self.definite else 2 * n), "n": n}
        self.els.append(e)
        return e

    # -- keys
    def elkeys(self, k):
        e = self.els[k]
        return [("N", n, d) for n in e["nodes"] for d in e["dofs"]] + [("E", k + 1, d) for d in e["edofs"]]

    def keys(self):
        s = set()
        for k in range(len(self.els)):
            s.update(self.elkeys(k))
        for m, ds, ss in self.rigids:
            s.update(("N", m, d) for d in DOFT[:6])
        return sorted(s)

    def add_mpc(self, b=None, nterm=None):
        r = self.r
        ks = [k for k in self.keys() if k[0] == "N"]
        if not ks:
            return
        t = [(k[1], k[2], r.choice([1, -1, 2, -3, 1])) for k in r.sample(ks, min(len(ks), nterm or r.randint(1, 3)))]
        if r.random() < 0.1:
            t.append((t[0][0], t[0][1], r.choice([1, 2])))        # the same DoF twice
        self.mpcs.append((r.choice([0, 0, 1, -2, 5]) if b is None else b, t))

    def rigid_rows(self):
        eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (2, 1, 0): -1, (1, 0, 2): -1, (0, 2, 1): -1}
        out = []
        for m, ds, ss in self.rigids:
            for s in ss:
                for d in ds:
                    i = DOFT.index(d)
                    v = [self.pos[s - 1][j] - self.pos[m - 1][j] for j in range(3)]
                    row = [(s, d, 1), (m, d, -1)]
                    for l in range(3):
                        row.append((m, DOFT[3 + l], -sum(eps.get((i, l, j), 0) * v[j] for j in range(3))))
                    out.append(row)
        return out

    def system(self):
        """(keys, K as dict of dicts incl. constraints, F) in an arbitrary order of keys"""
        ks = self.keys()
        ix = {k: i for i, k in enumerate(ks)}
        rows = [(b, t) for b, t in self.mpcs] + [(0, t) for t in self.rigid_rows()]
        n = len(ks) + len(rows)
        A = [[0] * n for _ in range(n)]
        F = [0] * n
        for k, e in enumerate(self.els):
            lk = self.elkeys(k)
            for a in range(e["n"]):
                F[ix[lk[a]]] += e["F"][a]
                for b in range(e["n"]):
                    A[ix[lk[a]]][ix[lk[b]]] += e["K"][min(a, b)][max(a, b)] * e["tang"]
        for m, (b, t) in enumerate(rows):
            F[len(ks) + m] = b
            for (nd, d, c) in t:
                i = ix[("N", nd, d)]
                A[len(ks) + m][i] += c
                A[i][len(ks) + m] += c
        return ks, A, F

    def solution(self, limit=3000):
        """exact solution of the linear problem or None (singular or too large for the fixed point)"""
        ks, A, F = self.system()
        n = len(A)
        if n > 40:
            return None
        fx = {}
        for (nd, d, v) in self.fixes:
            fx[("N", nd, d)] = v
        free = [i for i in range(n) if not (i < len(ks) and ks[i] in fx)]
        if not [i for i in free if i < len(ks)]:
            return None
        R = [0] * n
        for (nd, d, v) in self.loads:
            R[ks.index(("N", nd, d))] += v
        rhs = [F[i] + R[i] - sum(A[i][j] * fx[ks[j]] for j in range(len(ks)) if ks[j] in fx) for i in free]
        x = solve([[A[i][j] for j in free] for i in free], rhs)
        if x is None or any(abs(v) > limit for v in x):
            return None
        full = [0] * n
        for i in range(len(ks)):
            if ks[i] in fx:
                full[i] = fx[ks[i]]
        for k, i in enumerate(free):
            full[i] = x[k]
        # every partial sum must stay far from the 32 bit range of TLC
        for i in range(n):
            if sum(abs(A[i][j] * full[j]) for j in range(n)) * self.S > 1.2e9:
                return None
        return ks, full

    def lines(self):
        ls = ["fe %d %d " % (self.S, self.nn) + " ".join("%d %d %d" % tuple(p) for p in self.pos)]
        for e in self.els:
            tri = lambda A: " ".join(str(A[i][j]) for i in range(e["n"]) for j in range(i, e["n"]))
            ls.append("elem %s %d %d %d D %s E %s N %s K %s F %s C %s M %s" % (
                e["sh"], e["path"], e["tang"], 1 if e["nl"] else 0, " ".join(e["dofs"]), " ".join(e["edofs"]),
                " ".join(map(str, e["nodes"])), tri(e["K"]), " ".join(map(str, e["F"])), tri(e["C"]), tri(e["M"])))
        for b, t in self.mpcs:
            ls.append("mpc %d " % b + " ".join("%d %s %d" % x for x in t))
        for m, ds, ss in self.rigids:
            ls.append("rigid %d D %s S %s" % (m, " ".join(ds), " ".join(map(str, ss))))
        return ls

    def bc_lines(self):
        ls = ["fix %d %s %d" % f for f in self.fixes] + ["load %d %s %d" % f for f in self.loads]
        self.r.shuffle(ls)
        # the last fix given to a DoF counts: keep the order of repeated ones as in self.fixes
        fx = [l for l in ls if l.startswith("fix")]
        order = iter(["fix %d %s %d" % f for f in self.fixes])
        return [next(order) if l.startswith("fix") else l for l in ls]

    def nodal(self):
        return [k for k in self.keys() if k[0] == "N"]

    def rand_bc(self, pfix=0.3, vals=(0, 0, 1, -2, 7)):
        r = self.r
        for k in self.nodal():
            if r.random() < pfix:
                self.fixes.append((k[1], k[2], r.choice(vals)))
            if r.random() < 0.4:
                for _ in range(r.choice([1, 1, 2, 3])):
                    self.loads.append((k[1], k[2], r.randint(-9, 9)))
        r.shuffle(self.fixes)
        if self.fixes and r.random() < 0.15:
            f = r.choice(self.fixes)
            self.fixes.append((f[0], f[1], r.choice(vals)))

    def add_rigid(self):
        """a rigid body on nodes which carry translations"""
        r = self.r
        if self.nn < 2:
            return False
        m = r.randint(1, self.nn)
        used = {(s, d) for _, ds, ss in self.rigids for s in ss for d in ds}
        cand = {}
        for k in self.nodal():
            if k[1] != m and k[2] in DOFT[:3] and (k[1], k[2]) not in used:
                cand.setdefault(k[1], set()).add(k[2])
        if any(m in ss for _, ds, ss in self.rigids):
            return False
        if not cand:
            return False
        s0 = r.choice(sorted(cand))
        ds = r.sample(sorted(cand[s0]), r.randint(1, len(cand[s0])))
        ss = [s for s in sorted(cand) if set(ds) <= cand[s] and (s == s0 or r.random() < 0.6)]
        r.shuffle(ss)
        masters = {x[0] for x in self.rigids}
        if masters & set(ss):
            return False
        self.rigids.append((m, ds, ss))
        return True
