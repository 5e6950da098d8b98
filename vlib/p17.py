"""P17: the nla3d program, from the archive file to the reactions and the exit status."""
from vlib.p16 import CUBE, turned, flat
from vlib.meshgen import efmt
LEVEL = "model_checking"
ASSUMPTIONS = [
    "models whose exact solution is known: blocks of SOLID81 or PLANE41 elements which deform by x = X + t (a.X) b, b perpendicular to a (isochoric), driven by displacements, by loads, through constraint equations or a rigid body",
    "the program is its own main() called in a process of its own, with the default equation solver and with PARDISO; what it prints is read back (six digits)",
]
R3 = range(3)
FACES = [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def grad(p, i, dim):
    """integral of the gradient of shape function i of an element with corners p"""
    if dim == 2:
        a, b = p[(i + 1) % 4], p[(i + 3) % 4]
        return [0.5 * (a[1] - b[1]), 0.5 * (b[0] - a[0]), 0.0]
    s = [0.0, 0.0, 0.0]
    for f in FACES:
        for t in ((f[0], f[1], f[2]), (f[0], f[2], f[3]), (f[0], f[1], f[3]), (f[1], f[2], f[3])):
            if i in t:
                k = t.index(i)
                c = cross(p[t[(k + 1) % 3]], p[t[(k + 2) % 3]])
                s = [x + y for x, y in zip(s, c)]
    return [x / 12.0 for x in s]


def stress(mt, F):
    """first Piola-Kirchhoff stress for det F = 1, p = 0"""
    k, c = mt
    C = [[sum(F[m][i] * F[m][j] for m in R3) for j in R3] for i in R3]
    t = sum(C[i][i] for i in R3); q = 0.5 * (t * t - sum(C[i][j] ** 2 for i in R3 for j in R3))
    ci = [[C[(i + 1) % 3][(j + 1) % 3] * C[(i + 2) % 3][(j + 2) % 3] - C[(i + 1) % 3][(j + 2) % 3] * C[(i + 2) % 3][(j + 1) % 3] for j in R3] for i in R3]
    if k == "Neo-Hookean": w1, w2 = 0.5 * c[0], 0.0
    elif k == "Biderman": w1, w2 = c[0] + 2 * c[1] * (t - 3) + 3 * c[2] * (t - 3) ** 2, c[3]
    else: w1, w2 = c[0], c[1]
    S = [[2 * w1 * ((i == j) - t / 3 * ci[i][j]) + 2 * w2 * (t * (i == j) - C[i][j] - 2.0 / 3 * q * ci[i][j]) for j in R3] for i in R3]
    return [[sum(F[i][m] * S[m][j] for m in R3) for j in R3] for i in R3]


def outer_forces(pts, els, dim, mt, F):
    """the forces which have to act on the nodes in the state F"""
    P = stress(mt, F)
    f = {k: [0.0] * 3 for k in pts}
    for e in els:
        p = [pts[k] for k in e]
        for i, k in enumerate(e):
            b = grad(p, i, dim)
            for x in R3:
                f[k][x] += sum(P[x][j] * b[j] for j in R3)
    return f


def block(r, dim, free):
    s = r.choice([1, 2, 3])
    j = lambda: r.choice([-1, 0, 0, 1]) if s > 2 else 0
    n = [r.choice([1, 1, 2]) if free else 2 for _ in range(dim)]
    if dim == 2:
        pts = {(i, k): [s * i + j(), s * k + j(), 0] for i in range(n[0] + 1) for k in range(n[1] + 1)}
        els = [[(i, k), (i + 1, k), (i + 1, k + 1), (i, k + 1)] for i in range(n[0]) for k in range(n[1])]
    else:
        pts = {(a, b, c): [s * a + j(), s * b + j(), s * c + j()] for a in range(n[0] + 1) for b in range(n[1] + 1) for c in range(n[2] + 1)}
        els = [[(x + a, y + b, z + c) for a, b, c in CUBE] for x in range(n[0]) for y in range(n[1]) for z in range(n[2])]
    inner = {k for k in pts if all(0 < k[x] < n[x] for x in range(dim))}
    return pts, [turned(r, e) for e in els], inner, n


def material_of(r):
    k = r.choice(["Neo-Hookean", "Biderman", "Mooney-Rivlin"])
    return k, {"Neo-Hookean": [r.randint(1, 5)], "Biderman": [r.randint(1, 3), r.choice([0, 1]), 0, r.choice([0, 1, 2])], "Mooney-Rivlin": [r.randint(1, 3), r.randint(0, 3)]}[k] + [r.choice([10, 50, 500])]


def numbers(r, n):
    hi = r.choice([n, n, n + 3, 500, 99999])
    nums = r.sample(range(1, hi + 1), n)
    if r.random() < 0.5:
        nums.sort()
    return nums


def val(r, v):
    return r.choice(["%.10f", "%.12E", "%r"]) % v


def script(r, kind=None):
    kind = kind or r.choice(["fix", "fix", "load", "ce", "rigid", "refuse"])
    dim = r.choice([2, 3, 3]); DL = ["UX", "UY", "UZ"][:dim]
    pts, els, inner, n = block(r, dim, kind in ("load", "ce", "rigid"))   # something has to be free: the code takes a step without unknown displacements as converged after one iteration
    mt = material_of(r)
    # the motion: displacement H X / d, H = b (x) a
    while True:
        a = [r.choice([0, 0, 1]) if i < dim else 0 for i in R3]
        b = [r.choice([-1, 0, 0, 1, 2]) if i < dim else 0 for i in R3]
        if any(a) and any(b) and sum(x * y for x, y in zip(a, b)) == 0:
            break
    if kind in ("rigid", "ce"):
        a = [0] * 3; a[dim - 1] = 1
        b = [r.choice([-1, 1, 2, 0]) if i < dim - 1 else 0 for i in R3]
        if not any(b):
            b[0] = 1
        n[dim - 1] = 1
        top = [k for k in pts if k[dim - 1] == max(q[dim - 1] for q in pts)]
        for k in top:
            pts[k][dim - 1] = pts[top[0]][dim - 1]
    big = max(abs(x) for x in b) * sum(a)
    if kind == "load":  # far from bifurcations: with dead loads the state isn't the only equilibrium when they are large
        mt = ("Neo-Hookean", [r.randint(1, 5), r.choice([50, 500])])
        d = 4
        if big / d > 0.26:
            return script(r, kind)
    else:
        d = r.choice([q for q in (2, 3, 4) if big / q <= 0.7] or [4])
    if big / d > 1:
        return script(r, kind)
    H = [[b[i] * a[j] for j in R3] for i in R3]
    steps = r.choice([q for q in (1, 2, 3, 4) if q * d <= 4]) if kind != "load" else r.choice([3, 4, 5, 6])
    last = int(kind == "load")
    ks = list(pts)
    r.shuffle(ks)
    u = {k: [sum(H[x][j] * pts[k][j] for j in R3) / d for x in range(dim)] for k in ks}
    F = [[(x == y) + H[x][y] / d for y in R3] for x in R3]
    f = outer_forces(pts, els, dim, mt, F)
    order = list(ks)
    master = None
    extra = {}
    if kind == "rigid":
        master = "M"; order.insert(r.randint(0, len(order)), "M"); extra["M"] = [r.randint(-3, 3) for _ in range(dim)] + [0] * (3 - dim)
    num = dict(zip(order, numbers(r, len(order))))
    at = lambda k: extra.get(k) or pts[k]
    # which degrees of freedom are prescribed, tied or loaded
    fixed = {(k, x): u[k][x] for k in ks for x in range(dim) if k not in inner}
    loads, ces = {}, []
    if kind == "load":
        lo = [k for k in ks if k not in inner and k[dim - 1] > 0]
        for k in lo:
            for x in range(dim):
                if r.random() < 0.5:
                    del fixed[(k, x)]
                    loads[(k, x)] = f[k][x]
        if not loads:
            return script(r, kind)
    if kind == "ce":
        x = next(i for i in range(dim) if b[i])
        for k in top[1:]:
            if k in inner:
                continue
            if r.random() < 0.8:
                c = r.choice([1.0, -2.0, 0.5])
                ces.append([(k, x, c), (top[0], x, -c)] if r.random() < 0.5 else [(top[0], x, -c), (k, x, c)])
                del fixed[(k, x)]
        if top[0] in inner or not ces:
            return script(r, kind)
    if kind == "rigid":
        for k in top:
            for x in range(dim):
                fixed.pop((k, x), None)
    # the file
    out = []
    def blk(*ls): out.append(list(ls))
    cut = r.choice([len(order), len(order) // 2 or 1])
    for part in (order[:cut], order[cut:]):
        if part:
            blk("NBLOCK,6,SOLID,%10d,%10d" % (max(num.values()), len(part)), "(3i9,6e20.13)", *["%9d%9d%9d" % (num[k], 0, 0) + "".join(efmt(float(x), 20, 13, 2) for x in at(k)) for k in part] + ["N,R5.3,LOC,       -1,"])
    eb = [(i + 1, e) for i, e in enumerate(els)]
    r.shuffle(eb)
    lines = []
    for i, e in eb:
        lines.append("".join("%9d" % x for x in [1, 1, 1, 1, 0, 0, 0, 0, len(e), 0, i] + [num[k] for k in e]))
        if r.random() < 0.15:   # elements of another type are not part of the model
            lines.append("".join("%9d" % x for x in [1, 2, 1, 1, 0, 0, 0, 0, len(e), 0, i + 100] + [num[k] for k in e]))
    blk("EBLOCK,19,SOLID,%10d,%10d" % (len(lines), len(lines)), "(19i9)", *lines + ["       -1"])
    bcs = []
    for (k, x), v in fixed.items():
        if r.random() < 0.1:    # the last value counts
            bcs.append(["D,%d,%s,%s" % (num[k], DL[x], val(r, r.choice([1.0, -3.0, 0.5]))), "D,%d,%s,%s" % (num[k], DL[x], val(r, v))])
        else:
            bcs.append(["D,%d,%s,%s,  0.00000000" % (num[k], DL[x].ljust(4), val(r, v))])
    for (k, x), v in loads.items():
        if r.random() < 0.2:    # loads add up
            bcs.append(["F,%d,%s,%s" % (num[k], "F" + DL[x][1], val(r, v - 1.5))]); bcs.append(["F,%d,%s,%s" % (num[k], "F" + DL[x][1], val(r, 1.5))])
        else:
            bcs.append(["F,%d,%s,%s" % (num[k], "F" + DL[x][1], val(r, v))])
    if master:
        for x in range(dim):
            bcs.append(["D,%d,%s,%s" % (num["M"], DL[x], val(r, sum(H[x][j] * pts[top[0]][j] for j in R3) / d))])
        if dim == 2:    # the master node of a rigid body has all six degrees of freedom
            bcs.append(["D,%d,UZ,0.0" % num["M"]])
        for x in R3:
            bcs.append(["D,%d,ROT%s,0.0" % (num["M"], "XYZ"[x])])
    r.shuffle(bcs)
    blk(*[l for q in bcs for l in q])
    for c in ces:
        blk("CE,R5.0,DEFI,%8d,%8d,%s" % (len(c), 1, "0.00000000"), "CE,R5.0,NODE," + ",".join("%10d,%s,%s" % (num[k], DL[x].ljust(4), val(r, v)) for k, x, v in c))
    def comp(name, sel):
        s = sorted(num[k] for k in sel)
        blk("CMBLOCK,%s,NODE,%8d  ! users node component definition" % (name, len(s)), "(8i10)", *["".join("%10d" % x for x in s[i:i + 8]) for i in range(0, len(s), 8)])
    # reactions: of a set of nodes whose degrees of freedom are prescribed
    watch, asked = [], []
    use = r.random() < 0.9
    if kind == "rigid":
        comp("SLAVES", top)
        sel, watch = ["M"], list(top)
        asked = r.sample(DL, r.randint(1, dim))
    elif kind == "ce":
        sel = [top[0]] + [k for k in ks if k not in top and k not in inner and r.random() < 0.5]
        watch = sel + [c[0][0] if c[0][0] != top[0] else c[1][0] for c in ces]
        asked = [DL[next(i for i in range(dim) if b[i])]]
    else:
        cand = [k for k in ks if all((k, x) in fixed for x in range(dim))]
        sel = r.sample(cand, r.randint(1, len(cand))) if cand else []
        if not sel:
            return script(r, kind)
        watch = list(sel)
        asked = r.sample(DL, r.randint(1, dim)) if r.random() < 0.7 else []
    comp("WATCHED", sel)
    out = out[:1] + r.sample(out[1:], len(out) - 1) if r.random() < 0.5 else out
    ls = ["w /PREP7"]
    for q in out:
        ls += ["w " + x for x in q]
        if r.random() < 0.3:
            ls.append("w " + r.choice(["! comment", "*SET,PAR,  3.5", "FINISH", "ET,       1,185"]))
    idx = {k: i + 1 for i, k in enumerate(ks)}
    ls += ["nodes 1000 %d %d " % (dim, len(ks)) + " ".join(" ".join(map(str, pts[k])) for k in ks), "mat %s %s" % (mt[0], " ".join(map(str, mt[1])))]
    ls += ["el " + " ".join(str(idx[k]) for k in e) for e in els]
    ls.append("path %s %d %d %d" % (flat(H), d, steps, last))
    args = [["-element", "SOLID81" if dim == 3 else "PLANE41"], ["-material", mt[0]] + [str(x) for x in mt[1]], ["-loadsteps", str(steps)]]
    vtk = r.random() < 0.3
    if not vtk: args.append(["-novtk"])
    if r.random() < 0.3: args.append(["-iterations", "25"])
    if use:
        args.append(["-reaction", "WATCHED"] + asked)
        ls += ["watch " + " ".join(str(idx[k]) for k in watch), "dofs " + " ".join(asked)]
    if kind == "rigid":
        args.append(["-rigidbody", str(num["M"]), "SLAVES"] + ([] if dim == 3 and r.random() < 0.5 else DL))
    expect = "ok"
    if use and asked and not last and r.random() < 0.5:
        x = "XYZ".index(asked[0][1]); ref = []
        for q in range(steps + 1):
            Fq = [[(i == j) + q / steps * H[i][j] / d for j in R3] for i in R3]
            fq = outer_forces(pts, els, dim, mt, Fq)
            ref.append(round(1000 * sum(fq[k][x] for k in watch)) + r.choice([0, 0, r.randint(-400, 400)]))
        if r.random() < 0.3:    # a curve which stays where it was
            k = r.randrange(steps); ref[k + 1] = ref[k]
        if True:
            thr = r.choice([0, 30, 100, 100, 300])
            args.append(["-refcurve", "curve.txt"])
            if thr: args.append(["-threshold", "%.3f" % (thr / 1000.0)])
            ls += ["c time    disp      force"] + ["c %10.3f %8.2f %12.3f" % (i, 0, v / 1000.0) for i, v in enumerate(ref)]
            if r.random() < 0.2:
                ref.append(7777); ls.append("c 99 0 7.777")
            ls.append("refs %d %s" % (thr, " ".join(map(str, ref))))
    file = "model.cdb"
    if kind == "refuse":
        expect = "refuse"
        w = r.choice(["nomat", "nocomp", "noreact", "nofile", "elem", "few", "many", "unknown", "iter"])
        args = [q for q in args if q[0] not in ("-refcurve", "-threshold")]
        if w == "nomat": args = [q for q in args if q[0] != "-material"]
        elif w == "nocomp": args = [q for q in args if q[0] != "-reaction"] + [["-reaction", "NOWHERE", "UX"]]
        elif w == "noreact": args = [q for q in args if q[0] != "-reaction"] + [["-refcurve", "curve.txt"]]; ls.append("c time disp force")
        elif w == "nofile": file = "nothing.cdb"
        elif w == "unknown": args = [q for q in args if q[0] != "-material"] + [["-material", "Rubber", "1", "2"]]
        elif w == "elem": args = [q for q in args if q[0] != "-element"] + [["-element", "SOLID99"]]
        elif w == "iter" and steps == 1: args = [q for q in args if q[0] not in ("-iterations",)] + [["-iterations", "1"]]
        elif w in ("few", "many", "iter"): args = [q for q in args if q[0] != "-material"] + [["-material", mt[0]] + [str(x) for x in mt[1]][:-1] + (["3", "4"] if w == "many" else [])]
    ls.append("expect %s %d" % (expect, 0 if not vtk else steps + 1 if expect == "ok" else int(w == "iter" and steps == 1)))
    r.shuffle(args)
    ls.append("run " + file + " " + " ".join(" ".join(q) for q in args))
    return ls


def command_script(r, o):
    """One combination of command line options (a state of MCProg) on a sheared block whose top nodes move together."""
    fil, element, material, reaction, curve, threshold, rigid, vtk, iterations, steps, out, rows, files = o
    dim = 3 if element == "none" else r.choice([2, 3])
    DL = ["UX", "UY", "UZ"][:dim]
    q = [[0, 0], [1, 0], [1, 1], [0, 1]]
    pts = [p + [0] for p in q] if dim == 2 else [p + [z] for z in (0, 1) for p in q]
    pts = dict(enumerate(pts))
    H = [[0, 1, 0], [0, 0, 0], [0, 0, 0]]; d = 2
    mt = material_of(r)
    num = dict(zip(pts, numbers(r, len(pts))))
    top = [k for k in pts if pts[k][1] == 1]
    ls = ["w NBLOCK,6,SOLID,%10d,%10d" % (max(num.values()), len(pts)), "w (3i9,6e20.13)"]
    ls += ["w %9d%9d%9d" % (num[k], 0, 0) + "".join(efmt(float(x), 20, 13, 2) for x in pts[k]) for k in pts] + ["w N,R5.3,LOC,       -1,"]
    ls += ["w EBLOCK,19,SOLID,%10d,%10d" % (1, 1), "w (19i9)", "w " + "".join("%9d" % x for x in [1, 1, 1, 1, 0, 0, 0, 0, len(pts), 0, 1] + [num[k] for k in pts]), "w        -1"]
    for k in pts:
        for x in range(dim):
            if not (x == 0 and k in top[1:]):
                ls.append("w D,%d,%s,%s" % (num[k], DL[x], 0.5 if x == 0 and k in top else 0.0))
    for k in top[1:]:
        ls += ["w CE,R5.0,DEFI,%8d,%8d,%s" % (2, 1, "0.00000000"), "w CE,R5.0,NODE,%10d,UX,1.0,%10d,UX,-1.0" % (num[k], num[top[0]])]
    foot = [k for k in pts if k not in top]
    s = sorted(num[k] for k in foot)
    ls += ["w CMBLOCK,FOOT,NODE,%8d" % len(s), "w (8i10)", "w " + "".join("%10d" % x for x in s)]
    ls += ["nodes 1000 %d %d " % (dim, len(pts)) + " ".join(" ".join(map(str, pts[k])) for k in pts), "mat %s %s" % (mt[0], " ".join(map(str, mt[1]))), "el " + " ".join(str(k + 1) for k in pts)]
    ls.append("path %s %d %d 0" % (flat(H), d, steps))
    args = []
    if element != "none": args.append(["-element", "CUBE" if element == "unknown" else "SOLID81" if dim == 3 else "PLANE41"])
    cs = [str(x) for x in mt[1]]
    if material != "none": args.append(["-material", "Rubber" if material == "unknown" else mt[0]] + (cs[:-1] if material == "few" else cs + ["1"] if material == "many" else cs))
    asked = ["UX"] if reaction == "one" else DL
    if reaction != "none":
        args.append(["-reaction", "NOWHERE" if reaction == "nowhere" else "FOOT"] + (["UX"] if reaction == "one" else []))
        if out != "refused": ls += ["watch " + " ".join(str(k + 1) for k in foot), "dofs " + " ".join(["UX"] if reaction == "one" else [])]
    if curve != "none":
        args.append(["-refcurve", "curve.txt" if curve != "nofile" else "other.txt"])
        ref = []
        for k in range(steps + 1):
            F = [[(i == j) + k / steps * H[i][j] / d for j in R3] for i in R3]
            f = outer_forces(pts, [tuple(pts)], dim, mt, F)
            ref.append(round(1000 * sum(f[n][0] for n in foot)) + (2000 if curve == "off" else 0))
        if curve == "short": ref.pop()
        ls += ["c time    disp      force"] + ["c %10.3f %8.2f %12.3f" % (i, 0, v / 1000.0) for i, v in enumerate(ref)]
        ls.append("refs %d %s" % (500 if threshold == "set" else 0, " ".join(map(str, ref))))
    if threshold == "set": args.append(["-threshold", "0.5"])
    if rigid != "none":
        args.append(["-rigidbody", str(max(num.values()) + 1 if rigid == "nomaster" else num[0])] + {"alone": [], "nowhere": ["NOSLAVES"], "nomaster": ["FOOT"]}[rigid])
    if not vtk: args.append(["-novtk"])
    if iterations != "none": args.append(["-iterations", "1" if iterations == "one" else "40"])
    args.append(["-loadsteps", str(steps)])
    r.shuffle(args)
    ls += ["expect %s %d" % ({"refused": "refuse", "fine": "ok", "differs": "differs"}[out], files), "run %s " % ("nothing.cdb" if fil == "missing" else "model.cdb") + " ".join(" ".join(a) for a in args)]
    return ls


def wrongs(o):
    return (o[0] == "missing") + (o[1] == "unknown") + (o[2] != "right") + (o[3] == "nowhere") + (o[4] == "nofile" or (o[4] != "none" and o[3] == "none")) + (o[6] != "none") + (o[8] == "one")


def one_wrong(r, bad, n):
    """Mostly runs in which one thing only is wrong: these tell whether it is noticed."""
    one = [o for o in bad if wrongs(o) == 1]
    return r.sample(one, n * 3 // 4) + r.sample(bad, n // 4)


def run(c):
    opts = [h[0] for h in c.model("MCProg", "MCProg.cfg", scripts=True)]
    good = [o for o in opts if o[10] != "refused"]
    bad = [o for o in opts if o[10] == "refused"]
    for mkl in (False, True):
        exe = c.build("drv_prog.cpp", mkl=mkl)
        some = (good + c.rng.sample(bad, 6000) if c.thorough() else c.rng.sample(good, 150) + one_wrong(c.rng, bad, 300))
        c.validate("TraceProg", "Trace.cfg", c.drive(exe, [("opt%s%d" % ("p" if mkl else "g", i), command_script(c.rng, o)) for i, o in enumerate(some)]), exe, "command lines with " + ("PARDISO" if mkl else "the default solver"))
        n = 300 if not c.thorough() else 3000
        c.validate("TraceProg", "Trace.cfg", c.drive(exe, [("%s%d" % ("pardiso" if mkl else "gauss", i), script(c.rng)) for i in range(n)]), exe, "program with " + ("PARDISO" if mkl else "the default solver"))
