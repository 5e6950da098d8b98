"""Scripts which run the solvers (drv_fe)."""
from vlib.fegen import Model, DOFT, SHAPES


def recs(r, ls, full=True, many=False):
    """a full recorder and possibly silent ones around it"""
    n = r.choice([1, 1, 2, 3]) if many else 1
    f = r.randint(1, n)
    for i in range(1, n + 1):
        ls.append("rec %d %d" % (10 + i, 1 if i == f else 0))


def react_lines(r, m, tag, k0=0):
    ls, n = [], 0
    con = {(f[0], f[1]) for f in m.fixes}
    for _ in range(r.choice([1, 1, 2])):
        ks = m.nodal()
        if r.random() < 0.5 and con:
            # automatic choice: every node of the set has the constrained DoFs of the first one
            n0 = r.choice(sorted({c[0] for c in con}))
            d0 = {d for (a, d) in con if a == n0}
            ns = [n0] + [x for x in range(1, m.nn + 1) if x != n0 and all((x, d) in con for d in d0) and r.random() < 0.8]
            ds = []
        else:
            d0 = r.sample(sorted({k[2] for k in ks}), 1)
            ds = d0 + ([x for x in sorted({k[2] for k in ks}) if x not in d0 and r.random() < 0.4])
            ns = r.sample(range(1, m.nn + 1), r.randint(1, m.nn))
        n += 1
        ls.append("react %s N %s D %s" % ("-" if r.random() < 0.3 else "r%s_%d.txt" % (tag, n), " ".join(map(str, ns)), " ".join(ds)))
    return ls, n


def units(r, p=0.5):
    """another unit of force: the same model, the same displacements, other rounding"""
    return ["units %s" % r.choice(["0.1", "0.3", "0.001", "700", "12345.678"])] if r.random() < p else []


def linear(r, mpc=False, rigid=False, react=False, tag="x", again=False):
    while True:
        m = Model(r, maxn=r.choice([2, 3, 4, 5]), maxe=r.choice([1, 2, 3, 4]))
        if rigid:
            # a set of nodes with translations
            for _ in range(r.randint(1, 2)):
                m.add_el(dofs=r.sample(DOFT[:3], r.randint(1, 3)), shapes=["LINE", "TRIANGLE", "QUAD", "TETRA", "VERTEX"])
            if not m.add_rigid():
                continue
            if r.random() < 0.3:
                m.add_rigid()
        m.rand_bc(pfix=r.choice([0.0, 0.2, 0.4, 0.6]))
        if rigid:
            # fix the rotations the elements do not resist
            for (ma, ds, ss) in m.rigids:
                for d in DOFT[:6]:
                    if r.random() < 0.45 and not any(f[0] == ma and f[1] == d for f in m.fixes):
                        m.fixes.append((ma, d, r.choice([0, 0, 1, -1])))
        if mpc:
            for _ in range(r.choice([1, 1, 2, 3])):
                m.add_mpc()
        if m.solution() is None:
            continue
        ls = units(r) + m.lines() + ["solver lin"]
        bc = m.bc_lines()
        rl, nr = react_lines(r, m, tag) if react else ([], 0)
        if react and nr and r.random() < 0.5:
            ls += rl[:1]; recs(r, ls, many=True); rest = rl[1:]
        else:
            recs(r, ls, many=react); rest = rl
        ls += rest + bc + ["solve", "get", "seen"]
        ls += ["reactout %d" % (i + 1) for i in range(nr)]
        if again:
            ls += once_more(r, m, tag, nr, react)
        return ls


def once_more(r, m, tag, nr, react):
    """the model is solved again: by the same solver with further boundary conditions or by another one, possibly after elements or
    constraints were added"""
    ls, ids = [], list(range(1, nr + 1))
    for rnd in range(r.choice([1, 1, 2])):
        keep = (m.els[:], m.mpcs[:], m.fixes[:], m.loads[:])
        for _ in range(20):
            m.els, m.mpcs, m.fixes, m.loads = [list(x) for x in keep]
            new = r.random() < 0.4
            add = []
            if r.random() < 0.3:
                m.add_el(shapes=["VERTEX", "LINE", "TRIANGLE"])
                add.append("e")
            if r.random() < 0.25:
                m.add_mpc(); add.append("m")
            if new:
                m.fixes, m.loads = [], []
            nf, nl = len(m.fixes), len(m.loads)
            for k in m.nodal():
                if r.random() < (0.3 if new else 0.15):
                    m.fixes.append((k[1], k[2], r.choice([0, 0, 2, -1])))
                if r.random() < 0.25:
                    m.loads.append((k[1], k[2], r.randint(-9, 9)))
            if m.solution(limit=3000) is not None:
                break
        else:
            m.els, m.mpcs, m.fixes, m.loads = keep
            return ls
        if r.random() < 0.3:
            ls.append("delsol")
        ml = m.lines()
        if "e" in add: ls.append([x for x in ml if x.startswith("elem")][-1])
        if "m" in add: ls.append([x for x in ml if x.startswith("mpc")][-1])
        if new:
            ls.append("solver lin")
            recs(r, ls, many=react)
            k0 = max([0] + ids)
            rl, n = react_lines(r, m, "%s_%d" % (tag, rnd)) if react else ([], 0)
            ls += rl
            ids = list(range(k0 + 1, k0 + n + 1)) if n else []
            if not n and react: ids = []
        if new:
            ls += m.bc_lines()
        else:
            bc = ["fix %d %s %d" % f for f in m.fixes[nf:]]
            lo = ["load %d %s %d" % f for f in m.loads[nl:]]
            ls += lo + bc if r.random() < 0.5 else bc + lo
        ls += ["solve", "get", "seen"] + ["reactout %d" % i for i in ids]
    return ls


def newton(r, mpc=False, react=False, tag="x", rigid=False):
    """elements with F = F0 - K U and a tangent which is a multiple of K"""
    while True:
        m = Model(r, maxn=r.choice([2, 3, 4]), maxe=1)
        m.els = []
        tang = r.choice([1, 1, 2, 2, 3])
        for _ in range(r.randint(1, 3)):
            m.add_el(nonlinear=True, tang=tang, dom=None, shapes=["VERTEX", "LINE", "TRIANGLE", "QUAD", "TWIN"])
        for e in m.els:   # dominant: K positive definite, the iteration contracts
            for i in range(e["n"]):
                e["K"][i][i] = 3 * e["n"] + r.randint(1, 4)
        m.rand_bc(pfix=r.choice([0.1, 0.3, 0.5]), vals=(0, 0, 1, -2, 4))
        if mpc:
            for _ in range(r.choice([1, 2])):
                m.add_mpc(b=0)
        s = m.solution(limit=8)
        if s is None:
            continue
        steps = r.choice([1, 2, 3, 4, 5, 6, 7, 10, 12])
        crit = r.choice([50000, 100000, 200000])
        ls = units(r, 0.3) + m.lines() + ["solver nl %d 60 %d %d" % (steps, crit, r.choice([1, 1, 2, 5]))]
        rl, nr = react_lines(r, m, tag) if react else ([], 0)
        recs(r, ls, many=react)
        ls += rl + m.bc_lines() + ["solve", "get", "seen"] + ["reactout %d" % (i + 1) for i in range(nr)]
        return ls


def refused(r):
    """a step that cannot converge within the allowed number of iterations is never reported"""
    m = Model(r, maxn=3, maxe=1)
    m.els = []
    e = m.add_el(nonlinear=True, tang=r.choice([8, 10]), shapes=["VERTEX", "LINE"])
    for i in range(e["n"]):
        e["K"][i][i] = 3 * e["n"] + 2
    k = m.nodal()[0]
    m.loads.append((k[1], k[2], 400))
    ls = m.lines() + ["solver nl %d %d 50000 1" % (r.choice([1, 2]), r.choice([1, 2, 3]))]
    recs(r, ls)
    return ls + m.bc_lines() + ["mustfail"]


def turning(r):
    """a rigid body turned by finite angles: master prescribed (exact rotation known) or free and loaded"""
    m = Model(r, maxn=5, maxe=1)
    m.els = []
    m.nn = r.randint(2, 5)
    m.pos = [[r.randint(-3, 3) for _ in range(3)] for _ in range(m.nn)]
    nodes = list(range(1, m.nn + 1))
    r.shuffle(nodes)
    ma, rest = nodes[0], nodes[1:]
    ss = rest[:r.randint(1, len(rest))]
    free = r.random() < 0.35
    exact = not free and r.random() < 0.6      # angles with rational sine and cosine, longer arms
    if exact:
        m.pos = [[r.randint(-30, 30) for _ in range(3)] for _ in range(m.nn)]
    full = free or r.random() < 0.7
    ds = r.sample(DOFT[:3], 3 if full else r.randint(1, 2))
    for s in ss:
        e = m.add_el(sh="VERTEX", dofs=r.sample(ds, len(ds)), nonlinear=True)
        e["nodes"], e["edofs"] = [s], []
        e["n"] = n = len(ds)
        e["K"] = [[(0 if free else r.randint(1, 5)) if i == j else 0 for j in range(n)] for i in range(n)]
        e["C"] = e["M"] = e["K"]
        e["F"] = [r.choice([0, 0, 1, -1]) for _ in range(n)]
    if free:
        e = m.add_el(sh="VERTEX", dofs=DOFT[:6], nonlinear=True)
        e["nodes"], e["edofs"], e["path"], e["n"] = [ma], [], 0, 6
        e["K"] = [[r.randint(400, 450) if i == j else (r.randint(-3, 3) if j > i else 0) for j in range(6)] for i in range(6)]
        e["C"] = e["M"] = e["K"]
        e["F"] = [0] * 6
    m.rigids.append((ma, ds, ss))
    ls = m.lines() + ["solver nl %d 80 1000 %d" % (r.randint(1, 5), r.choice([1, 1, 2]))]
    recs(r, ls)
    out = []
    if exact:
        bc = ["fix %d %s %d" % (ma, d, r.randint(-3, 3)) for d in DOFT[:3]]
        p, q = r.choice([(1, 100), (1, 50), (1, 40), (1, 25), (1, 21), (1, 15), (1, 12), (1, 8), (1, 5), (1, 3), (1, 2), (2, 3), (1, 1), (3, 2), (3, 1), (5, 1)])
        w, ax = r.choice([(1, (1, 0, 0)), (1, (0, 1, 0)), (1, (0, 0, 1)), (3, (1, 2, 2)), (3, (2, -1, 2)), (3, (2, 2, 1)), (3, (-2, 1, 2))])
        if r.random() < 0.5:
            p = -p
        for i, d in enumerate(DOFT[3:6]):
            bc.append("fix %d %s AT %d %d %d %d" % (ma, d, p, q, ax[i], w))
        r.shuffle(bc)
        ls += bc
        return ls + ["solve", "get", "turnedq 1 %d %d %d %d %d %d 8" % (p, q, *ax, w)]
    if free:
        for d in DOFT[:3]:
            if r.random() < 0.7: ls.append("load %d %s %d" % (ma, d, r.randint(-900, 900)))
        for d in DOFT[3:6]:
            if r.random() < 0.7: ls.append("load %d %s %d" % (ma, d, r.randint(-700, 700)))
        for s in ss:
            if r.random() < 0.3: ls.append("load %d %s %d" % (s, r.choice(ds), r.choice([1, -1])))
    else:
        bc = ["fix %d %s %d" % (ma, d, r.randint(-3, 3)) for d in DOFT[:3]]
        a, k = r.randint(1, 4), r.choice([-3, -2, -1, 0, 1, 1, 2, 3, 4])
        for i, d in enumerate(DOFT[3:6]):
            x = (k * 0.5 if i + 1 == a else 0) if a < 4 else k * 2 / 3 / 3 ** 0.5
            bc.append("fix %d %s PI*%.17g" % (ma, d, x))
        r.shuffle(bc)
        ls += bc
        for s in ss:
            if r.random() < 0.4: ls.append("load %d %s %d" % (s, r.choice(ds), r.randint(-9, 9)))
        out.append("turned 1 %d %d 8" % (a, k % (4 if a < 4 else 3)))
    if full:
        out.append("rigidck 1")
    return ls + ["solve", "get"] + out


def transient(r, mpc=False, react=False, tag="x"):
    """linear transient models; a floating point simulation keeps the numbers moderate"""
    while True:
        m = Model(r, maxn=r.choice([1, 2, 3, 4]), maxe=r.choice([1, 2, 3]), shapes=["VERTEX", "LINE", "TRIANGLE", "QUAD", "TWIN"])
        m.S = 1000
        kind = r.choice(["MCK", "MK", "CK", "MCK"])
        for e in m.els:
            n = e["n"]
            for f, d in (("K", 3), ("C", 2), ("M", 2)):
                z = f not in kind
                e[f] = [[0 if z else (d * n + r.randint(0, 3) if i == j else r.randint(-2, 2) if j > i else 0) for j in range(n)] for i in range(n)]
        m.rand_bc(pfix=r.choice([0.0, 0.2, 0.5]), vals=(0, 0, 1, -2, 3))
        if mpc:
            m.add_mpc()
        if m.solution(limit=50) is None:
            continue
        steps, mm = r.randint(1, 12), r.choice([1, 2, 4, 3, 10])
        al, de = r.choice([(2, 4), (2, 4), (4, 6), (5, 8), (8, 8), (4, 4), (8, 6)])
        init = r.choice([0, 0, 1, -2, 5])
        if not simulate(m, steps, mm, al / 8.0, de / 8.0, init):
            continue
        ls = m.lines() + ["solver tr %d %d %s %d %d %d" % (steps, mm, r.choice(["0", "0", "1", "0.3", "5"]), al, de, init)]
        recs(r, ls, many=react)
        ls += m.bc_lines() + ["solve", "get", "seen"]
        if r.random() < 0.3:         # the same run once more, or by another solver
            ls += ["solve", "get", "seen"] if r.random() < 0.5 else ["solver lin", "rec 11 1"] + m.bc_lines() + ["solve", "get"]
        return ls


def simulate(m, steps, mm, al, de, init):
    """float simulation of the scheme; False when singular or when a value would leave the fixed point range"""
    ks, K, F = m.system()
    n = len(K)
    ix = {k: i for i, k in enumerate(ks)}
    C = [[0.0] * n for _ in range(n)]
    M = [[0.0] * n for _ in range(n)]
    for q, e in enumerate(m.els):
        lk = m.elkeys(q)
        for a in range(e["n"]):
            for b in range(e["n"]):
                C[ix[lk[a]]][ix[lk[b]]] += e["C"][min(a, b)][max(a, b)]
                M[ix[lk[a]]][ix[lk[b]]] += e["M"][min(a, b)][max(a, b)]
    fx = {ix[("N", nd, d)]: v for nd, d, v in m.fixes}
    P = [float(x) for x in F]
    for nd, d, v in m.loads:
        P[ix[("N", nd, d)]] += v
    dt = 1.0 / mm
    u = [fx.get(i, init) if i < len(ks) else 0.0 for i in range(n)]
    v = [0.0] * n
    a = [0.0] * n
    fr = [i for i in range(n) if i not in fx]
    a0, a1 = 1 / (al * dt * dt), de / (al * dt)
    A = [[K[i][j] + a0 * M[i][j] + a1 * C[i][j] for j in fr] for i in fr]
    for _ in range(steps):
        up = [u[i] + dt * v[i] + dt * dt * (0.5 - al) * a[i] for i in range(n)]      # u' = up + al dt^2 a'
        vp = [v[i] + dt * (1 - de) * a[i] for i in range(n)]                          # v' = vp + de dt a'
        rhs = []
        for i in fr:
            s = P[i]
            for j in range(n):
                s += a0 * M[i][j] * up[j] + C[i][j] * (a1 * up[j] - vp[j])
                if j in fx:
                    s -= (K[i][j] + a0 * M[i][j] + a1 * C[i][j]) * fx[j]
            rhs.append(s)
        x = fsolve([row[:] for row in A], rhs)
        if x is None:
            return False
        un = list(u)
        for k, i in enumerate(fr):
            un[i] = x[k]
        an = [a0 * (un[i] - up[i]) if i < len(ks) else 0.0 for i in range(n)]
        vn = [vp[i] + de * dt * an[i] if i < len(ks) else 0.0 for i in range(n)]
        u, v, a = un, vn, an
        for i in range(n):
            if m.S * sum(abs(K[i][j] * u[j]) + abs(C[i][j] * v[j]) + abs(M[i][j] * a[j]) for j in range(n)) > 8e8:
                return False
            if m.S * max(16 * mm * mm * abs(u[i]), 16 * mm * abs(v[i]), 16 * abs(a[i])) > 8e8:
                return False
    return True


def fsolve(A, b):
    n = len(A)
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(A[k][i]))
        if abs(A[p][i]) < 1e-6:
            return None
        A[i], A[p] = A[p], A[i]
        b[i], b[p] = b[p], b[i]
        for k in range(i + 1, n):
            f = A[k][i] / A[i][i]
            if f:
                for j in range(i, n):
                    A[k][j] -= f * A[i][j]
                b[k] -= f * b[i]
    x = [0.0] * n
    for i in range(n - 1, -1, -1):
        x[i] = (b[i] - sum(A[i][j] * x[j] for j in range(i + 1, n))) / A[i][i]
    return x


def mixed_set(r, tag):
    """reactions asked of a set of nodes which are not constrained alike, without naming the DoFs: refused"""
    while True:
        m = Model(r, maxn=r.choice([2, 3, 4, 5]), maxe=r.choice([1, 2, 3, 4]))
        m.rand_bc(pfix=r.choice([0.2, 0.4, 0.6]))
        con = {(f[0], f[1]) for f in m.fixes}
        if m.solution() is None or not con:
            continue
        n0 = r.choice(sorted({c[0] for c in con}))
        d0 = {d for (a, d) in con if a == n0}
        other = [x for x in range(1, m.nn + 1) if any((x, d) not in con for d in d0)]
        same = [x for x in range(1, m.nn + 1) if x != n0 and x not in other]
        if not other:
            continue
        ns = [r.choice(other)] + [x for x in same if r.random() < 0.5]
        r.shuffle(ns)
        ls = m.lines() + ["solver lin"]
        x = ["react - N %s D" % " ".join(map(str, [n0] + ns)), "rec 11 1"]
        r.shuffle(x)
        return ls + x + m.bc_lines() + ["mustfail"]
