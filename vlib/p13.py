"""P13: the linear finite elements."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "single elements of a small lattice exhaustively (cube corners, 3x3 grid, bars and interfaces of integer length) with a few material data; random meshes of up to 5 elements with coordinates in -3..3",
    "entries are compared in fixed point (1/1000) with a bound for the rounding; fully integrated quadrilaterals which are no parallelograms are judged by symmetry and by what they make of constant and linear fields",
    "positively oriented elements without repeated nodes (those in INTER0/INTER3 pairs are distinct nodes); bars, interfaces and surfaces of integer length or area",
    "the stress reported by a tetrahedron with temperature or initial strains is not specified by the code base and not judged",
]
DIRS = [(2, 0, 0), (0, -3, 0), (0, 0, 1), (3, 4, 0), (-4, 0, 3), (0, 5, -12), (1, 2, 2), (-2, 1, 2), (2, -2, -1), (2, 3, 6), (-6, 2, -3)]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def isq(x):
    r = int(round(x ** 0.5))
    return r * r == x and r > 0


def rand_script(r):
    nd = []

    def node(p, reuse=0.5, avoid=()):
        c = [i + 1 for i, q in enumerate(nd) if q == p and i + 1 not in avoid]
        if c and r.random() < reuse:
            return r.choice(c)
        nd.append(p)
        return len(nd)

    def near(z=True):
        if nd and r.random() < 0.5:
            p = r.choice(nd)
            if z or p[2] == 0:
                return p
        return tuple(r.randint(-3, 3) for _ in range(2)) + ((r.randint(-3, 3) if z else 0),)

    def nodes(ps):
        ns = []
        for p in ps:
            ns.append(node(p, 0.8, ns))
        return " ".join(map(str, ns))

    def poly(n):
        while True:
            q = [near(False) for _ in range(n)]
            if all(cross(sub(q[(i + 1) % n], q[i]), sub(q[(i + 2) % n], q[(i + 1) % n]))[2] > 0 for i in range(n)):
                if n == 4 and r.random() < 0.3:
                    q[3] = tuple(a - b + c for a, b, c in zip(q[0], q[1], q[2]))
                return q

    def my():
        return r.choice(["0 1", "1 4", "1 3", "3 10", "1 5"])
    ls = []
    kinds = r.choice([["TRUSS3", "TETRA0", "INTER0", "INTER3"], ["TRI"], ["TRI", "TRUSS3"], ["TETRA1", "LINETH"], ["QUADTH", "LINETH"], ["TETRA0"], ["QUADTH"], ["QUADTH", "TRI"], ["TETRA0", "TETRA1"], ["INTER3"]])
    for _ in range(r.randint(1, 5 if len(nd) < 9 else 2)):
        if len(nd) > 9:
            break
        t = r.choice(kinds)
        if t in ("TRUSS3", "LINETH"):
            p = near(); d = r.choice(DIRS)
            if t == "TRUSS3":
                ls.append("TRUSS3 %s %d %d" % (nodes([p, tuple(a + b for a, b in zip(p, d))]), r.randint(1, 50), r.randint(1, 5)))
            else:
                ls.append("LINETH %s %d %d %d %d %d" % (nodes([p, tuple(a + b for a, b in zip(p, d))]), r.randint(-5, 5), r.randint(0, 9), r.randint(-9, 9), r.choice([0, r.randint(1, 9)]), r.randint(0, 3)))
        elif t == "TRI":
            ls.append("TRI %s %d %d %s" % (nodes(poly(3)), r.randint(0, 1), r.randint(1, 40), my()))
        elif t in ("TETRA0", "TETRA1"):
            while True:
                q = [near() for _ in range(4)]
                if dot(sub(q[3], q[0]), cross(sub(q[1], q[0]), sub(q[2], q[0]))) > 0:
                    break
            if t == "TETRA1":
                ls.append("TETRA1 %s %d" % (nodes(q), r.randint(1, 30)))
            else:
                k = r.choice([0, 0, 1, 2])
                v = [r.randint(-4, 4) if k else 0 for _ in range(6)]
                ls.append("TETRA0 %s %d %s %d %d %s" % (nodes(q), r.randint(1, 12), my(), r.choice([0, 0, r.randint(-3, 3)]), k, " ".join(map(str, v))))
        elif t == "QUADTH":
            ls.append("QUADTH %s %d %d %d %d %d" % (nodes(poly(4)), r.randint(1, 9), r.randint(0, 5), r.randint(1, 4), r.randint(-5, 5), r.randint(0, 3)))
        elif t == "INTER0":
            p = near()
            n = (0, 0, 0)
            while n == (0, 0, 0):
                n = tuple(r.randint(-2, 2) for _ in range(3))
            ls.append("INTER0 %s %d %d %d %d %d" % ((nodes([p, p if r.random() < 0.5 else near()]), r.randint(0, 40), r.randint(0, 20)) + n))
        elif t == "INTER3":
            p = near()
            while True:
                a, b = r.choice(DIRS), r.choice(DIRS)
                n = cross(a, b)
                if n != (0, 0, 0) and isq(dot(n, n)):
                    break
            q = [p, tuple(x + y for x, y in zip(p, a)), tuple(x + y for x, y in zip(p, b))]
            ls.append("INTER3 %s %d %d" % (nodes(q + q), r.randint(0, 9), r.randint(0, 9)))
    used = sorted({int(x) for l in ls for x in l.split()[1:1 + {"TRUSS3": 2, "LINETH": 2, "TRI": 3, "TETRA0": 4, "TETRA1": 4, "QUADTH": 4, "INTER0": 2, "INTER3": 6}[l.split()[0]]]})
    dofs = {"TRUSS3": "UX UY UZ", "TETRA0": "UX UY UZ", "INTER0": "UX UY UZ", "INTER3": "UX UY UZ", "TRI": "UX UY"}
    cand = sorted({(int(n), d) for l in ls for n in [l.split()[k] for k in range(1, 3)] for d in dofs.get(l.split()[0], "TEMP").split()})
    fixed = r.sample(cand, r.randint(0, min(4, len(cand) - 1)))  # a model has at least one unknown
    out = ["nodes 1000 %d %s" % (len(nd), " ".join("%d %d %d" % p for p in nd))] + ls
    # only the planar thermal elements have damping and mass matrices; the others refuse transient analyses
    tr = r.randint(0, 1) if all(l.split()[0] in ("QUADTH", "LINETH") for l in ls) else 0
    out.append("build %d %s" % (tr, " ".join("%d %s" % f for f in fixed)))
    for _ in range(r.randint(1, 3)):
        out.append("set " + " ".join(str(r.randint(-9, 9)) for _ in range(r.choice([5, 7, 11]))))
        if r.random() < 0.6:
            out.append("assemble")
    return out


def run(c):
    h = c.model("MCElem", "MCElemT.cfg" if c.thorough() else "MCElem.cfg", scripts=True)
    exe = c.build("drv_elem.cpp")
    if len(h) > 20000:
        h = c.rng.sample(h, 20000)
    elif not c.thorough():
        h = c.rng.sample(h, min(len(h), 2500))
    sc = [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, rand_script(c.rng)) for i in range(1200 if not c.thorough() else 12000)]
    c.validate("TraceElem", "Trace.cfg", c.drive(exe, sc), exe, "linear elements")
