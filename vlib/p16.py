"""P16: the hyperelastic elements."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "affine states x = (A/d) X + t with det A a cube (the law is rational there) and pressures of moderate size, exactly; arbitrary states by relations: balance, objectivity, tangent = derivative of forces, forces = derivative of energy",
    "derivatives are central differences of what the code reports (step 2^-14), compared to about 1/2000",
]
CUBE = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
ROT3 = [((1, 2, 2), (2, 1, -2), (-2, 2, -1), 3), ((0, -1, 0), (1, 0, 0), (0, 0, 1), 1), ((2, -1, 2), (2, 2, -1), (-1, 2, 2), 3), ((3, -4, 0), (4, 3, 0), (0, 0, 5), 5),
        ((5, 0, 0), (0, 4, -3), (0, 3, 4), 5), ((0, 0, 1), (1, 0, 0), (0, 1, 0), 1), ((-1, 0, 0), (0, -1, 0), (0, 0, 1), 1), ((2, 3, 6), (3, -6, 2), (6, 2, -3), 7)]
ROT2 = [((3, -4, 0), (4, 3, 0), (0, 0, 5), 5), ((0, -1, 0), (1, 0, 0), (0, 0, 1), 1), ((-1, 0, 0), (0, -1, 0), (0, 0, 1), 1), ((5, 12, 0), (-12, 5, 0), (0, 0, 13), 13)]


def det(A):
    a, b, c = A
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def affine(r, dim, near=False):
    """(A, d): det A in {1, 8, 27}"""
    while True:
        d = r.choice([1, 2, 2, 3])
        R = range(3)
        A = [[r.choice([-1, 0, 0, 1, 1, 2]) if not near else (d if i == j else 0) + r.choice([-1, 0, 0, 0, 1]) for j in R] for i in R]
        if dim == 2:
            A[0][2] = A[1][2] = A[2][0] = A[2][1] = 0
            A[2][2] = d
        e = {1: 1, 8: 2, 27: 3}.get(det(A))
        if not e or (e == 3 and d != 3):
            continue
        G = mul([list(x) for x in zip(*A)], A)
        if sum(G[i][i] for i in R) > (30 if e < 3 else 36):
            continue
        return A, d


def flat(A):
    return " ".join(str(x) for row in A for x in row)


def material(r):
    k = r.choice(["Neo-Hookean", "Biderman", "Biderman", "Mooney-Rivlin"])
    K = r.choice([3, 10, 50])
    if k == "Neo-Hookean":
        c = [r.randint(1, 5)]
    elif k == "Biderman":
        c = [r.randint(1, 3), r.choice([0, 1, -1]), r.choice([0, 0, 1]), r.choice([0, 1, 2])]
    else:
        c = [r.randint(0, 3), r.randint(1, 3)]
    return k, c + [K]


def small_enough(A, d, k, c):
    """the integer arithmetic of the specification stays within 32 bits"""
    R = range(3)
    c2 = [c[0], 0, 0, 0] if k == "Neo-Hookean" else [2 * x for x in c[:4]] if k == "Biderman" else [2 * c[0], 0, 0, 2 * c[1]]
    D = det(A); e = {1: 1, 8: 2, 27: 3}[D]
    G = mul([list(x) for x in zip(*A)], A)
    t = sum(G[i][i] for i in R); q = (t * t - sum(G[i][j] ** 2 for i in R for j in R)) // 2
    ad = [[G[(i + 1) % 3][(j + 1) % 3] * G[(i + 2) % 3][(j + 2) % 3] - G[(i + 1) % 3][(j + 2) % 3] * G[(i + 2) % 3][(j + 1) % 3] for j in R] for i in R]
    x = t - 3 * e * e
    a1 = c2[0] * e ** 4 + 2 * c2[1] * x * e * e + 3 * c2[2] * x * x
    S, big = 1000, []
    s = []
    for i in R:
        for j in R:
            dl = int(i == j)
            d1 = d * d * (3 * e ** 6 * dl - t * ad[i][j]); d2 = d * d * (3 * e ** 6 * (t * dl - G[i][j]) - 2 * q * ad[i][j])
            big += [a1 * d1, c2[3] * d2, S * (3 * e ** 12)]
            s.append(abs(S * a1 * d1 // (3 * e ** 12)) + abs(S * c2[3] * d2 // (3 * e ** 10)) + 60 * S * abs(ad[i][j]) // (d * D))
    m = max(s)
    ma = max(abs(x) for row in A for x in row)
    big += [m * 9 * ma * ma * d, m * 3 * ma * 400, S * c2[2] * abs(x) ** 3, S * 2 * e ** 6]
    return max(abs(b) for b in big) < 1.9e9


def hexes(r, distort=True):
    """(nodes, elements): one to three hexahedra in a row, distorted and renumbered"""
    n = r.choice([1, 1, 2, 3]); s = r.choice([2, 3, 4])
    pts = {}
    for i in range(n + 1):
        for j in range(2):
            for k in range(2):
                pts[(i, j, k)] = [s * v + (r.choice([-1, 0, 0, 1]) if distort and s > 2 else 0) for v in (i, j, k)]
    els = [[(i + a, b, c) for a, b, c in CUBE] for i in range(n)]
    return pts, els, 3


def quads(r, distort=True):
    n, m = r.choice([(1, 1), (2, 1), (2, 2)]); s = r.choice([2, 3, 4])
    pts = {(i, j): [s * i + (r.choice([-1, 0, 0, 1]) if distort and s > 2 else 0), s * j + (r.choice([-1, 0, 0, 1]) if distort and s > 2 else 0), 0] for i in range(n + 1) for j in range(m + 1)}
    els = [[(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)] for i in range(n) for j in range(m)]
    return pts, els, 2


def turned(r, e):
    """the same element, its nodes listed from another corner"""
    if len(e) == 4:
        k = r.randint(0, 3)
        return e[k:] + e[:k]
    for _ in range(r.randint(0, 5)):
        g = r.choice([[1, 2, 3, 0, 5, 6, 7, 4], [3, 2, 6, 7, 0, 1, 5, 4]])
        e = [e[i] for i in g]
    return e


def setup(r, mesh, S, mt):
    pts, els, dim = mesh
    ks = sorted(pts)
    r.shuffle(ks)
    num = {k: i + 1 for i, k in enumerate(ks)}
    ls = ["nodes %d %d %d " % (S, dim, len(ks)) + " ".join(" ".join(map(str, pts[k])) for k in ks)]
    ls.append("mat %s %s" % (mt[0], " ".join(map(str, mt[1]))))
    for e in els:
        ls.append("el " + " ".join(str(num[k]) for k in turned(r, e)))
    return ls, num


def rand_mesh(r, distort=True):
    return (hexes if r.random() < 0.6 else quads)(r, distort)


def affine_script(r):
    mesh = rand_mesh(r)
    mt = material(r)
    ls, num = setup(r, mesh, 1000, mt)
    dim = mesh[2]
    fx = ["%d %d" % (n, x) for n in num.values() for x in range(dim) if r.random() < 0.15]
    ls.append("init " + " ".join(fx))
    for _ in range(r.randint(1, 4)):
        A, d = affine(r, dim)
        if not small_enough(A, d, *mt):
            continue
        ls.append("affine %s %d %d %d %d %s" % (flat(A), d, r.randint(-5, 5), r.randint(-5, 5), 0 if dim == 2 else r.randint(-5, 5), " ".join(str(r.randint(-9, 9)) for _ in mesh[1])))
        if r.random() < 0.4:
            ls.append("along %s %s" % (" ".join(str(r.choice([0, 1, -1, 2])) for _ in range(len(num) * dim)), " ".join(str(r.randint(-2, 2)) for _ in mesh[1])))
        if r.random() < 0.3:
            Q = r.choice(ROT2 if dim == 2 else ROT3)
            ls.append("rotate %s %d 1 -2 0" % (flat(Q[:3]), Q[3]))
    return ls


def state_script(r):
    mesh = rand_mesh(r)
    mt = material(r)
    ls, num = setup(r, mesh, 100, mt)
    dim = mesh[2]
    nd = len(num) * dim
    ls.append("init " + " ".join("%d %d" % (n, x) for n in num.values() for x in range(dim) if r.random() < 0.15))
    a = r.choice([5, 15, 25])
    for _ in range(r.randint(1, 3)):
        ls.append("state %s %s" % (" ".join(str(r.randint(-a, a)) for _ in range(nd)), " ".join(str(r.randint(-5, 5)) for _ in mesh[1])))
        for _ in range(r.choice([0, 1, 2])):
            ls.append("along %s %s" % (" ".join(str(r.choice([0, 1, -1, 2])) for _ in range(nd)), " ".join(str(r.randint(-2, 2)) for _ in mesh[1])))
        if r.random() < 0.5:
            Q = r.choice(ROT2 if dim == 2 else ROT3)
            ls.append("rotate %s %d 3 1 %d" % (flat(Q[:3]), Q[3], 0 if dim == 2 else -4))
    return ls


def patch_script(r):
    """a block with one node inside: the outer nodes are moved affinely, the rest is solved for"""
    dim = r.choice([2, 3]); s = r.choice([2, 3, 4]); R = range(3)
    j = lambda: r.choice([-1, 0, 0, 1]) if s > 2 else 0
    if dim == 2:
        pts = {(i, k): [s * i + j(), s * k + j(), 0] for i in R for k in R}
        els = [[(i, k), (i + 1, k), (i + 1, k + 1), (i, k + 1)] for i in range(2) for k in range(2)]
        mid = (1, 1)
    else:
        pts = {(a, b, c): [s * a + j(), s * b + j(), s * c + j()] for a in R for b in R for c in R}
        els = [[(x + a, y + b, z + c) for a, b, c in CUBE] for x in range(2) for y in range(2) for z in range(2)]
        mid = (1, 1, 1)
    k = r.choice(["Neo-Hookean", "Biderman", "Mooney-Rivlin"])
    c = {"Neo-Hookean": [r.randint(1, 5)], "Biderman": [r.randint(1, 3), r.choice([0, 1]), 0, r.choice([0, 1, 2])], "Mooney-Rivlin": [r.randint(1, 3), r.randint(0, 3)]}[k] + [r.choice([3, 10, 50])]
    ls, num = setup(r, (pts, els, dim), 1000, (k, c))
    m = r.choice([0, 1, 2])
    A = [[(10 if x == y else 0) + (r.randint(-m, m) if max(x, y) < dim else 0) for y in R] for x in R]
    ls.append("patch %d %s 10 %s" % (r.randint(1, 4), flat(A), " ".join(str(n) for q, n in num.items() if q != mid)))
    return ls


def run(c):
    h = c.model("MCHyper", "MCHyperT.cfg" if c.thorough() else "MCHyper.cfg", scripts=True)
    exe = c.build("drv_hyper.cpp")
    h = c.rng.sample(h, min(len(h), 1000 if not c.thorough() else 20000))
    c.validate("TraceHyper", "Trace.cfg", c.drive(exe, [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]), exe, "sequences of elementary deformations")
    n = 400 if not c.thorough() else 5000
    sc = [("aff%d" % i, affine_script(c.rng)) for i in range(n)]
    sc += [("st%d" % i, state_script(c.rng)) for i in range(n)]
    sc += [("pat%d" % i, patch_script(c.rng)) for i in range(n // 4)]
    c.validate("TraceHyper", "Trace.cfg", c.drive(exe, sc), exe, "hyperelastic meshes")
