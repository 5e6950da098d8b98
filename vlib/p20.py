"""P20: isoparametric maps and integration rules."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "elements with integer nodes and positive Jacobian at all of Simpson's points; lengths of lines are integers",
    "integrals are judged where the rule must be exact (degree up to 2 n - 1 in each direction), to a relative 1e-6; shape functions and derivatives exactly at quarter points",
]
CORN = {"LINE": [(-1,), (1,)], "QUAD": [(-1, -1), (1, -1), (1, 1), (-1, 1)],
        "HEX": [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]}
PYTH = [(3, 4, 0), (1, 2, 2), (2, 3, 6), (0, 0, 5), (2, 0, 0), (1, 4, 8), (2, 6, 9)]


def det(k, x, p):
    c, d = CORN[k], len(p)
    J = [[sum(x[n][j] * c[n][i] * __import__("math").prod(1 + c[n][e] * p[e] for e in range(d) if e != i) for n in range(len(c))) for j in range(d)] for i in range(d)]
    if d == 2: return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    return sum(J[0][j] * (J[1][(j + 1) % 3] * J[2][(j + 2) % 3] - J[1][(j + 2) % 3] * J[2][(j + 1) % 3]) for j in range(3))


def good(k, x):
    import itertools
    d = len(CORN[k][0])
    return all(det(k, x, p) > 0 for p in itertools.product((-1, 0, 1), repeat=d))


def element(r, k):
    while True:
        if k == "LINE":
            v = list(r.choice(PYTH)); r.shuffle(v); v = [q * r.choice([1, -1]) for q in v]; o = [r.randint(-5, 5) for _ in range(3)]
            return [o, [a + b for a, b in zip(o, v)]]
        d = 2 if k == "QUAD" else 3
        if r.random() < 0.5 or k == "HEX" and r.random() < 0.5:
            E = [[r.randint(-2, 3) for _ in range(3)] for _ in range(d)]; o = [r.randint(-2, 2) for _ in range(3)]
            x = [[o[j] + sum(E[i][j] for i in range(d) if c[i] > 0) for j in range(3)] for c in CORN[k]]
        elif k == "QUAD": x = [[r.randint(-4, 5) for _ in range(3)] for _ in range(4)]
        else: x = [[c[j] + r.choice([0, 0, 1, -1]) for j in range(3)] for c in CORN[k]]
        if good(k, x): return x


def script(r):
    ls = []
    k = r.choice(["LINE", "QUAD", "QUAD", "HEX", "HEX"]); d = {"LINE": 1, "QUAD": 2, "HEX": 3}[k]
    x = element(r, k)
    ls.append("elem %s %s" % (k, " ".join("%d %d %d" % tuple(p) for p in x)))
    rd = lambda: "read %d %d %d" % tuple(r.randint(-4, 4) for _ in range(3))
    sh = lambda: "shape " + " ".join(str(r.randint(-4, 4)) for _ in range(d))
    if r.random() < 0.8: ls.append("order %d" % r.randint(0, 5))
    ls += ["make", rd(), sh()]
    for _ in range(r.randint(0, 4)):
        w = r.choice(["order", "move", "make", "read", "shape"])
        if w == "order": ls.append("order %d" % r.randint(0, 5))
        elif w == "move":
            y = element(r, k); ls += ["move %d %d %d %d" % (i + 1, *y[i]) for i in range(len(y)) if y[i] != x[i]]; x = y
            if r.random() < 0.7: ls.append("make")
        elif w == "make": ls.append("make")
        elif w == "read": ls.append(rd())
        else: ls.append(sh())
    return ls + [rd(), sh()]


def run(c):
    exe = c.build("drv_iso.cpp")
    h = c.model("MCIso", "MCIsoT.cfg" if c.thorough() else "MCIso.cfg", scripts=True)
    lim = 600 if not c.thorough() else 6000
    if len(h) > lim: h = c.rng.sample(h, lim)
    flat = lambda q: " ".join(str(v) if not isinstance(v, list) else flat(v) for v in q)
    sc = [("mc%d" % i, [flat(o) for o in x]) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, script(c.rng)) for i in range(500 if not c.thorough() else 8000)]
    c.validate("TraceIso", "Trace.cfg", c.drive(exe, sc), exe, "isoparametric elements")
