"""P18: dense vectors and matrices."""
import json

LEVEL = "model_checking"
ASSUMPTIONS = [
    "windows whose numbers were released are not used, partly overlapping windows are not added to one another; numbers are exact (quarters), inverses and eigenvalues in fixed point",
]


def flat(A):
    return " ".join("%d" % x for r in A for x in r)


def rows(A):
    return "%d %d %s" % (len(A), len(A[0]) if A else 0, flat(A))


def rnd(r, m, n, b=4):
    z = r.random() < 0.3
    return [[0 if z and r.random() < 0.4 else r.randint(-b, b) for _ in range(n)] for _ in range(m)]


def det(A):
    if len(A) == 1:
        return A[0][0]
    return sum((-1) ** j * A[0][j] * det([q[:j] + q[j + 1:] for q in A[1:]]) for j in range(len(A)) if A[0][j])


def inverse_small(A, bound):
    """adj(A)/det entries are within the fixed point range."""
    d = det(A)
    if d == 0:
        return False
    if len(A) == 1:
        return True
    n = range(len(A))
    return all(abs(det([[A[a][b] for b in n if b != j] for a in n if a != i])) <= bound * abs(d) for i in n for j in n)


def mm(A, B):
    return [[sum(a * b for a, b in zip(x, y)) for y in zip(*B)] for x in A]


ROT = [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1), ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3), ([[3, 4, 0], [-4, 3, 0], [0, 0, 5]], 5), ([[5, 0, 0], [0, 3, 4], [0, -4, 3]], 5), ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], 1), ([[4, 0, 3], [0, 5, 0], [-3, 0, 4]], 5),
       ([[2, 3, 6], [3, -6, 2], [6, 2, -3]], 7), ([[0, 0, 1], [1, 0, 0], [0, -1, 0]], 1)]


def eigen(r):
    """A symmetric matrix with known whole eigenvalues: Q D Q^T, scaled; often with equal ones."""
    Q, q = r.choice(ROT)
    a, b, c = r.randint(-4, 4), r.randint(-4, 4), r.randint(-4, 4)
    d = r.choice([[a, b, c], [a, a, b], [a, b, a], [b, a, a], [a, a, a], [0, 0, a], [0, a, -a], [0, 0, 0]])
    D = [[d[i] if i == j else 0 for j in range(3)] for i in range(3)]
    A = mm(mm(Q, D), [list(x) for x in zip(*Q)])
    return A, sorted((q * q * x for x in d), reverse=True)


def mat(r, o):
    s = lambda b=4: r.choice([1, 2, 3, 4])
    E = []
    c = d = 0
    B, R0 = E, E
    m, n, k = s(), s(), s()
    if o in ("det", "inv"):
        n = r.choice([1, 2, 3, 3, 4, 5])
        A = rnd(r, n, n, 3)
        while o == "inv" and not inverse_small(A, 50):
            A = rnd(r, n, n, 3)
    elif o == "cut":
        n = r.choice([2, 3, 4]); A = rnd(r, n, n); c, d = r.randrange(n), r.randrange(n)
    elif o in ("T", "neg", "scale", "add", "sub", "dot", "near"):
        if r.random() < 0.3: m, n = r.choice([(3, 6), (6, 3), (6, 6)])
        A = rnd(r, m, n); c = r.randint(-9, 9)
        B = rnd(r, m, n)
        if o == "near":
            B = [list(x) for x in A]; c = r.choice([0, 2, 4, 6])
            if r.random() < 0.7: B[r.randrange(m)][r.randrange(n)] += r.choice([1, -1, 2])
        elif o not in ("add", "sub"): B = E
    elif o in ("mul", "ab", "atb"):
        A = rnd(r, m, n) if o != "atb" else rnd(r, n, m)
        B = rnd(r, n, k); c = r.randint(-9, 9); R0 = rnd(r, m, k) if o != "mul" else E
    elif o in ("btdb", "btv", "bv"):
        if r.random() < 0.3: m, n = r.choice([(3, 6), (6, 3), (6, 6)])
        A = rnd(r, m, n); c = r.randint(-9, 9)
        if o == "btdb":
            B = rnd(r, 1, m * (m + 1) // 2); R0 = rnd(r, n, n)
            R0 = [[R0[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        else:
            B = rnd(r, 1, m if o == "btv" else n); R0 = rnd(r, 1, n if o == "btv" else m)
    elif o in ("sym", "symadd", "sbv"):
        n = r.choice([1, 2, 3, 4, 6]); A = rnd(r, 1, n * (n + 1) // 2); c = r.randint(-9, 9)
        if o == "symadd": B = rnd(r, 1, n * (n + 1) // 2)
        if o == "sbv": B = rnd(r, 1, n); R0 = rnd(r, 1, n)
    elif o == "eig":
        A, w = eigen(r); B = [w]
    elif o == "strain":
        A = rnd(r, 3, 3, 2)
        while det(A) <= 0 or not inverse_small(mm([list(x) for x in zip(*A)], A), 20):
            A = rnd(r, 3, 3, 2)
        R0 = rnd(r, 1, 6)
    return "mat %s %s %s %s %d %d" % (o, rows(A), rows(B), rows(R0), c, d)


OPS = ["T", "add", "sub", "neg", "scale", "mul", "mul", "dot", "det", "cut", "inv", "inv", "eig", "eig", "eig", "sym", "symadd", "btdb", "btdb", "btv", "bv", "sbv", "ab", "atb", "near", "strain"]


def mat_script(r):
    return [mat(r, r.choice(OPS)) for _ in range(12)]


def dyn_script(r):
    size = {1: (1, 1), 2: (1, 1), 3: (1, 1)}
    ls = []
    for _ in range(r.randint(4, 14)):
        k, q = r.randint(1, 3), r.randint(1, 3)
        m, n = size[k]
        o = r.choice(["resize", "fill", "fill", "zero", "set", "set", "assign", "assign", "copy", "cp", "cpv", "to", "to", "tov"])
        if o in ("resize", "fill"):
            m, n = r.randint(1, 3), r.randint(1, 3); size[k] = (m, n)
            ls.append("dyn resize %d %d %d" % (k, m, n) if o == "resize" else "dyn fill %d %s" % (k, rows(rnd(r, m, n, 9))))
        elif o == "zero": ls.append("dyn zero %d" % k)
        elif o == "set": ls.append("dyn set %d %d %d %d" % (k, r.randrange(m), r.randrange(n), r.randint(-9, 9)))
        elif o == "assign": size[k] = size[q]; ls.append("dyn assign %d %d" % (k, q))
        elif o == "copy":
            if k != q: size[k] = size[q]; ls.append("dyn copy %d %d" % (k, q))
        elif o == "cp": ls.append("dyn cp %d %s" % (k, rows(rnd(r, r.randint(1, m), r.randint(1, n), 9))))
        elif o == "cpv": ls.append("dyn cpv %d %d %s" % (k, r.randrange(n), rows(rnd(r, 1, r.randint(1, m), 9))))
        elif o == "to": ls.append("dyn to %d %d %d" % (k, r.randint(m, 3), r.randint(n, 3)))
        elif o == "tov": ls.append("dyn tov %d %d %d" % (k, r.randrange(n), r.randint(m, 3)))
    return ls


def run(c):
    h = c.model("MCDense", "MCDenseT.cfg" if c.thorough() else "MCDense.cfg", scripts=True)
    g = c.model("MCDense", "MCDenseS.cfg", scripts=True, simulate=(300 if not c.thorough() else 5000, 16))
    # the last step of a behaviour is emitted in all its variants: keep a few
    last = {}
    for x in g:
        last.setdefault(json.dumps(x[:-1]), []).append(x)
    g = [x for v in last.values() for x in c.rng.sample(v, min(len(v), 4))]
    exe = c.build("drv_dense.cpp", asan=True)
    env = {"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=64"}
    h = c.rng.sample(h, min(len(h), 1000 if not c.thorough() else 30000))
    c.validate("TraceDense", "TraceDense.cfg", c.drive(exe, [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)], env=env), exe, "short histories of vectors", env=env)
    c.validate("TraceDense", "TraceDense.cfg", c.drive(exe, [("sim%d" % i, c.to_lines(x)) for i, x in enumerate(g)], env=env), exe, "long histories of vectors", env=env)
    n = 400 if not c.thorough() else 5000
    sc = [("mat%d" % i, mat_script(c.rng)) for i in range(n)] + [("dyn%d" % i, dyn_script(c.rng)) for i in range(n)]
    c.validate("TraceDense", "TraceDense.cfg", c.drive(exe, sc, env=env), exe, "matrices", env=env)
