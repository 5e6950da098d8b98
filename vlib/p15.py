"""P15: the equation solvers."""
from fractions import Fraction
from vlib import fegen, solvegen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "regular symmetric integer matrices (decided exactly in rationals), solutions of moderate size; residuals in fixed point (1e-4) with the rounding bound of each row",
]


def solve(A, b):
    n = len(A)
    M = [[Fraction(x) for x in A[i]] + [Fraction(b[i])] for i in range(n)]
    for i in range(n):
        p = next((k for k in range(i, n) if M[k][i] != 0), None)
        if p is None:
            return None
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i and M[k][i] != 0:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def rand_matrix(r, kind, n):
    """dict of upper entries"""
    a = {}
    if kind == "pos":
        for i in range(1, n + 1):
            a[(i, i)] = 0
        for _ in range(r.randint(0, 2 * n)):
            i, j = r.randint(1, n), r.randint(1, n)
            if i != j:
                v = r.randint(-4, 4)
                if v:
                    k = (min(i, j), max(i, j))
                    a[(i, i)] += abs(v); a[(j, j)] += abs(v); a[k] = a.get(k, 0) + v
        for i in range(1, n + 1):
            a[(i, i)] += r.randint(1, 5)
    elif kind == "quasi":      # dominated by the diagonal, of any sign
        a = rand_matrix(r, "pos", n)
        for i in range(1, n + 1):
            a[(i, i)] *= r.choice([-1, 1])
    elif kind == "saddle":     # stiffness with constraint rows
        m = r.randint(1, max(1, n // 3))
        a = rand_matrix(r, "pos", n - m) if n > m else {}
        for c in range(n - m + 1, n + 1):
            for j in r.sample(range(1, n - m + 1), min(n - m, r.randint(1, 3))):
                a[(j, c)] = r.choice([-3, -2, -1, 1, 1, 2, 3])
    else:
        for _ in range(r.randint(n, 3 * n)):
            i, j = sorted((r.randint(1, n), r.randint(1, n)))
            a[(i, j)] = r.randint(-5, 5)
    return a


def dense(a, n):
    A = [[0] * n for _ in range(n)]
    for (i, j), v in a.items():
        A[i - 1][j - 1] = v; A[j - 1][i - 1] = v
    return A


def good(r, kind, n):
    for _ in range(200):
        a = rand_matrix(r, kind, n)
        b = [r.randint(-9, 9) for _ in range(n)]
        A = dense(a, n)
        x = solve(A, [1] * n)
        if x is None:
            continue
        # moderate inverse: columns of it bound every solution
        if n <= 12 and any(max(abs(v) for v in solve(A, [int(i == k) for i in range(n)])) > 50 for k in range(n)):
            continue
        if max(abs(v) for v in x) < 500:
            return a
    return {(i, i): i for i in range(1, n + 1)}


def entries(r, a, shuffle=True):
    es = []
    for (i, j), v in sorted(a.items()):
        if r.random() < 0.15 and v:
            w = r.randint(-3, 3)
            es.append((i, j, w)); es.append((j, i, v - w))
        else:
            es.append((i, j, v) if r.random() < 0.6 else (j, i, v))
    if shuffle:
        r.shuffle(es)
    return " ".join("%d %d %d" % e for e in es)


UMAX = 18      # 2^36 ~ 7e10: steel in SI units


def rand_script(r):
    ls, ms, ss, fact = [], {}, {}, {}
    size = lambda: r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12] + ([25, 40] if r.random() < 0.1 else []))
    n0 = size()

    def mat(m, kind=None, n=None):
        kind = kind or r.choice(["pos", "saddle", "saddle", "quasi", "indef"]); n = n or r.choice([n0, size()])
        if kind == "saddle" and n < 2 or kind == "indef" and n > 12:
            kind = "pos"
        a = good(r, kind, n)
        ms[m] = (n, kind, a)
        u = r.choice([0, 0, r.choice([-12, -5, 5, 12, UMAX])])
        if u and kind == "saddle":      # displacements in other units than the forces of constraints
            z = [(i, i) in a for i in range(1, n + 1)]
            ls.append("units " + " ".join(str(u if d else -u) for d in z))
        elif u:
            ls.append("units " + " ".join([str(u)] * n))
        else:
            ls.append("units")
        ls.append("mat %d %d %d %s" % (m, n, r.choice([n + 5, 100]), entries(r, a)))

    def solver(s):
        k = r.choice(["gauss", "pardiso", "pardiso", "default"])
        if k == "default" and any(x != s and ss[x][0] == k for x in ss):
            k = "gauss"     # there is one default solver
        ss[s] = (k, r.random() < 0.2 and k == "pardiso")
        fact.pop(s, None)
        ls.append("solver %d %s %d" % (s, k, ss[s][1]))
    mat(1); solver(1)
    for _ in range(r.randint(2, 14)):
        o = r.random()
        if o < 0.12:
            m = len(ms) + 1; mat(m)
        elif o < 0.25:
            m = r.choice(sorted(ms)); n, kind, a = ms[m]
            for _ in range(50):
                a2 = {k: (v if kind != "indef" else r.randint(-5, 5)) for k, v in a.items()}
                if kind != "indef":
                    for k in a2:
                        if k[0] == k[1] and a2[k]:
                            a2[k] += r.randint(0, 3) * (1 if a2[k] > 0 else -1)
                A = dense(a2, n); x = solve(A, [1] * n)
                if x is not None and max(abs(v) for v in x) < 500 and all(max(abs(v) for v in solve(A, [int(i == k) for i in range(n)])) <= 50 for k in (range(n) if n <= 12 else [])):
                    ms[m] = (n, kind, a2)
                    ls.append("vals %d %s" % (m, entries(r, a2)))
                    fact = {s: f for s, f in fact.items() if f != m}
                    break
        elif o < 0.35:
            solver(len(ss) + 1 if len(ss) < 3 else r.choice(sorted(ss)))
        elif o < 0.38 and len(ss) > 1:
            s = max(ss)
            if ss[s][0] != "default":
                del ss[s]; fact.pop(s, None); ls.append("drop %d" % s)
        else:
            s = r.choice(sorted(ss))
            # PARDISO moves pivots which are too small: it gives no exact answer for arbitrary indefinite matrices
            cand = [m for m in ms if ms[m][1] == "pos" or not ss[s][1] and (ms[m][1] != "indef" or ss[s][0] == "gauss")]
            if not cand:
                continue
            b = lambda n: " ".join(str(r.choice([0, r.randint(-9, 9)])) for _ in range(n))
            if s in fact and r.random() < 0.5:
                m = fact[s]; ls.append("sub %d %d %s" % (s, m, b(ms[m][0])))
            else:
                m = r.choice(cand); fact[s] = m
                ls.append("fact %d %d" % (s, m) if r.random() < 0.3 else "solve %d %d %s" % (s, m, b(ms[m][0])))
    return ls


def pardiso(ls):
    out = []
    for l in ls:
        out.append(l)
        if l.startswith("solver "):
            out.append("eqsolver pardiso")
    return out


def run(c):
    exe = c.build("drv_eqs.cpp", mkl=True)
    sc = []
    for cfg, n in (("MCEqsM.cfg", None), ("MCEqsT.cfg" if c.thorough() else "MCEqs.cfg", None)):
        hs = c.model("MCEqs", cfg, scripts=True)
        sc += [("%s%d" % (cfg[:-4], i), c.to_lines(h)) for i, h in enumerate(hs)]
    c.validate("TraceEqs", "Trace.cfg", c.drive(exe, sc), exe, "every small matrix, every order of calls")
    sc = [("rnd%d" % i, rand_script(c.rng)) for i in range(1000 if not c.thorough() else 15000)]
    c.validate("TraceEqs", "Trace.cfg", c.drive(exe, sc), exe, "equation solvers")
    exe = c.build("drv_fe.cpp", mkl=True)
    r, n, sc = c.rng, 150 if not c.thorough() else 3000, []
    fegen.Model.definite = True
    for i in range(n):
        sc += [("lin%d" % i, pardiso(solvegen.linear(r, again=i % 3 == 0))), ("mpc%d" % i, pardiso(solvegen.linear(r, mpc=True, again=i % 3 == 0))),
               ("rig%d" % i, pardiso(solvegen.linear(r, rigid=True))), ("nl%d" % i, pardiso(solvegen.newton(r, mpc=i % 2 == 0))),
               ("tr%d" % i, pardiso(solvegen.transient(r, mpc=i % 3 == 0)))]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "models solved with PARDISO")
