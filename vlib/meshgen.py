"""Mesh documents: abstract records next to the text of the file which carries them."""
DOFL = ["UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "TEMP"]


def efmt(v, width, digits, edig):
    s = "%.*E" % (digits, v)
    m, e = s.split("E")
    s = m + "E" + ("-" if e[0] == "-" else "+") + e[1:].lstrip("+-").zfill(edig)
    if len(s) > width:
        raise ValueError
    return s.rjust(width)


def num(r, v8):
    """a value in units of 1/8 as free-format text"""
    v = v8 / 8.0
    return r.choice(["%.8f" % v, "%.10E" % v, "%r" % v, ("%.6e" % v), " %.4f   " % v])


def ecase(r, s):
    return r.choice([s, s.lower()])


class Doc:
    def __init__(self, r, big=False, compressable=True):
        self.r = r
        self.out = []          # (records, lines)
        hi = r.choice([4, 12, 99, 1000, 99999])
        n = min(hi, r.randint(1, 40 if big else 8))
        self.nums = r.sample(range(1, hi + 1), n)
        if r.random() < 0.5:
            self.nums.sort()
        if r.random() < 0.2:
            self.nums = list(range(1, n + 1))
            if r.random() < 0.6:
                r.shuffle(self.nums)
        self.names = set()

    def noise(self):
        r = self.r
        return r.choice(["/PREP7", "! a comment, with commas", "   ", "/COM,ANSYS RELEASE 12.1", "*SET,PAR,  3.5", "*set,p2,text", "ET,        1,185", "et,tid,55",
                         "TYPE,1", "MPDATA,R5.0, 1,EX  ,   1, 1,  200000.0", "RLBLOCK,       1,       1,       6,       7", "FINISH", "DSYM,SYMM", "FITEM,2,1", "CEDELE,ALL", "NOPR"])

    def nblock(self, nums):
        r = self.r
        k = r.choice("ABC")
        recs, ls = [], []
        if k == "A":
            ls += [ecase(r, "NBLOCK") + ",6,SOLID,%10d,%10d" % (max(nums), len(nums)), r.choice(["(3i9,6e20.13)", "(3I9,6E20.13)", "  (3i9,6e20.13)"])]
            fl = lambda n, p: "%9d%9d%9d" % (n, 0, 0) + "".join(efmt(x / 8.0, 20, 13, 2) for x in p)
        elif k == "B":
            ls += ["nblock,3,,%d" % len(nums), "(1i9,3e20.9e3)"]
            fl = lambda n, p: "%9d" % n + "".join(efmt(x / 8.0, 20, 9, 3) for x in p)
        else:
            ls += ["NBLOCK,6,SOLID,%10d,%10d" % (max(nums), len(nums)), "(3i8,6e21.13e3)"]
            fl = lambda n, p: "%8d%8d%8d" % (n, 0, 0) + "".join(efmt(x / 8.0, 21, 13, 3) for x in p)
        for n in nums:
            p = [r.choice([0, r.randint(-4000, 4000)]) for _ in range(3)]
            q = list(p)
            while q and q[-1] == 0 and r.random() < 0.8:
                q.pop()
            if k != "B" and len(q) == 3 and r.random() < 0.2:
                q += [r.randint(-720, 720) for _ in range(r.randint(1, 3))]     # rotation angles of the node: ignored
            recs.append("node %d %d %d %d" % (n, *p))
            ls.append(fl(n, q))
        ls.append(r.choice(["N,R5.3,LOC,       -1,", "-1", "       -1"]))
        self.out.append((recs, ls))

    def eblock(self, cells):
        r = self.r
        solid = r.random() < 0.6
        w = r.choice([7, 8, 9, 10])
        recs = []
        if solid:
            ls = [ecase(r, "EBLOCK") + ",19,%s,%10d,%10d" % (r.choice(["SOLID", "solid"]), len(cells), len(cells)), "(19i%d)" % w]
        else:
            ls = [ecase(r, "EBLOCK") + ",10,,,%d" % len(cells), "(15i%d)" % w]
        for c, nodes in cells:
            a = [r.randint(1, 3), r.randint(1, 4), r.choice([0, 1, 5]), r.choice([0, 2]), r.choice([0, 11]), r.choice([0, 3])]
            if not solid:
                a[3] = a[5] = 0
            t, m, re, se, cs, sh = a
            f = [m, t, re, se, cs, 0, 0, sh, len(nodes), 0, c] + nodes if solid else [c, t, re, m, cs] + nodes
            recs.append("cell %d %s N %s" % (c, " ".join(map(str, a)), " ".join(map(str, nodes))))
            ls.append("".join("%*d" % (w, x) for x in f))
        ls.append(r.choice(["-1", " " * (w - 2) + "-1"]))
        self.out.append((recs, ls))

    def bc(self):
        r = self.r
        n = r.choice(self.nums)
        v = r.choice([0, r.randint(-8000, 8000)])
        if r.random() < 0.5:
            d = r.choice(DOFL)
            self.out.append((["fix %d %s %d" % (n, d, v)], ["%s,%s,%s,%s%s" % (ecase(r, "D"), r.choice(["%d", "%9d", " %d "]) % n, d.ljust(r.choice([0, 4])), num(r, v), r.choice(["", ",  0.00000000"]))]))
        else:
            d, lab = r.choice([("TEMP", "HEAT"), ("TEMP", "heat"), ("UX", "FX"), ("UY", "FY"), ("UZ", "FZ"), ("UX", "fx"), ("UZ", "UZ"), ("ROTX", "ROTX"), ("UY", "fy"), ("UZ", "fz")])
            self.out.append((["load %d %s %d" % (n, d, v)], ["%s,%s,%s,%s%s" % (ecase(r, "F"), r.choice(["%d", "%9d"]) % n, lab.ljust(r.choice([0, 4])), num(r, v), r.choice(["", ",  0.00000000"]))]))

    def skipped_bc(self):
        self.out.append(([], [self.r.choice(["D,ALL,UX,0", "D,_FIXEDSU,UX,0.", "F,all,FX,1.0", "d,5,temp,%mytable%"])]))

    def ce(self):
        r = self.r
        k = r.choice([1, 2, 2, 3, 4, 5, 8])
        b = r.choice([0, 0, r.randint(-100, 100)])
        t = [(r.choice(self.nums), r.choice(DOFL), r.choice([8, -8, r.randint(-99, 99)])) for _ in range(k)]
        ls = ["CE,R5.0,DEFI,%8d,%8d,%s" % (k, 1, num(r, b))]
        for i in range(0, k, 2):
            ls.append("CE,R5.0,NODE," + ",".join("%10d,%s,%s" % (n, d.ljust(4), num(r, c)) for n, d, c in t[i:i + 2]))
        self.out.append((["mpc %d " % b + " ".join("%d %s %d" % x for x in t)], ls))

    def comp(self):
        r = self.r
        kind = r.choice(["NODE", "NODE", "ELEM"])
        pool = sorted(self.nums) if kind == "NODE" else sorted({c for c, _ in self.cells} or {1})
        sel = sorted(r.sample(pool, r.randint(1, len(pool))))
        if kind == "NODE" and r.random() < 0.5 and len(pool) > 2:
            a = r.randint(0, len(pool) - 2)
            sel = pool[a:r.randint(a + 1, len(pool))]
        name = r.choice(["LEFT", "RIGHT_SIDE", "C1", "C2", "FIXEDSU", "n_load"])
        hidden = r.random() < 0.1
        if hidden:
            name = "_" + name
        if name in self.names:
            return
        self.names.add(name)
        enc, i = [], 0
        while i < len(sel):
            j = i
            while j + 1 < len(sel) and sel[j + 1] == sel[j] + 1:
                j += 1
            enc.append(sel[i])
            if j > i:
                if r.random() < 0.8: enc.append(-sel[j])
                else: enc += sel[i + 1:j + 1]
            i = j + 1
        per, w = r.choice([(8, 10), (8, 10), (4, 8), (2, 9)])
        ls = ["CMBLOCK,%s,%s,%8d%s" % (name, kind, len(enc), r.choice(["", "  ! users component definition"])), "(%di%d)" % (per, w)]
        for i in range(0, len(enc), per):
            ls.append("".join("%*d" % (w, x) for x in enc[i:i + per]))
        self.out.append(([] if hidden else ["comp %s %s %s" % (name, kind, " ".join(map(str, sel)))], ls))

    def make(self):
        r = self.r
        cut = sorted(r.sample(range(1, len(self.nums)), min(len(self.nums) - 1, r.choice([0, 0, 1])))) if len(self.nums) > 1 else []
        i = 0
        for j in cut + [len(self.nums)]:
            self.nblock(self.nums[i:j]); i = j
        self.cells = []
        num = r.choice([1, 1, 100])
        for _ in range(r.choice([0, 1, 1, 2])):
            blk = []
            for _ in range(r.randint(1, 6)):
                k = r.choice([1, 2, 3, 4, 8])
                nodes = [r.choice(self.nums) for _ in range(k)] if r.random() < 0.3 else r.sample(self.nums, min(k, len(self.nums)))
                blk.append((num, nodes)); num += r.choice([1, 1, 3])
            self.cells += blk
            self.eblock(blk)
        for _ in range(r.randint(0, 6)):
            r.choice([self.bc, self.bc, self.ce, self.comp, self.skipped_bc])()
        if r.random() < 0.4:
            r.shuffle(self.out)     # the order of the blocks is free
        return self


def cdb(r, big=False, comp=False):
    ls = []
    for _ in range(r.choice([1, 1, 1, 2])):
        d = Doc(r, big).make()
        ls.append("doc %s %d" % (r.choice(["LF", "LF", "CRLF", "CR"]), r.choice([1, 1, 1, 0])))
        for recs, lines in d.out:
            for x in recs:
                ls.append(x)
            for _ in range(r.choice([0, 0, 1, 2])):
                ls.append("|" + d.noise())
            for x in lines:
                ls.append("|" + x)
        ls.append("read cdb")
        if r.random() < 0.15:
            ls.append("missing cdb")
        if comp:
            ls += ["compress"] * r.choice([1, 1, 2])
    return ls


def neu(r):
    n = r.randint(4, 15)
    ls, tx = [], ["%d" % n]
    for k in range(1, n + 1):
        p = [r.randint(-4000, 4000) for _ in range(3)]
        ls.append("node %d %d %d %d" % (k, *p))
        tx.append("  ".join(r.choice(["%.6f", "%.10e"]) % (x / 8.0) for x in p))
    v = r.randint(1, 8)
    tx.append("%d" % v)
    for k in range(1, v + 1):
        m, q = r.randint(1, 3), r.sample(range(1, n + 1), 4)
        ls.append("cell %d 0 %d 0 0 0 0 N %s" % (k, m, " ".join(map(str, q))))
        tx.append("%4d %s" % (m, " ".join("%6d" % x for x in q)))
    s = r.randint(0, 8)
    tx.append("%d" % s)
    comps = {}
    for _ in range(s):
        k, q = r.randint(1, 3), r.sample(range(1, n + 1), 3)
        comps.setdefault(k, []).extend(q)
        tx.append("%4d %s" % (k, " ".join("%6d" % x for x in q)))
    for k in comps:
        ls.append("comp %d ELEM %s" % (k, " ".join(map(str, comps[k]))))
    return ["doc %s %d" % (r.choice(["LF", "CRLF"]), r.choice([1, 1, 0]))] + ls + ["|" + x for x in tx] + ["read neu"] + (["missing neu"] if r.random() < 0.1 else [])


def big_comp():
    """more ranges than fit into sixteen bits"""
    n = 65538
    ls = ["doc LF 1", "node 1 0 0 0", "|NBLOCK,6,SOLID,1,1", "|(3i9,6e20.13)", "|%9d%9d%9d" % (1, 0, 0), "|-1"]
    nums = list(range(2, 2 * n + 1, 2))
    ls.append("comp BIG ELEM " + " ".join(map(str, nums)))
    ls += ["|CMBLOCK,BIG,ELEM,%8d" % n, "|(8i10)"]
    for i in range(0, n, 8):
        ls.append("|" + "".join("%10d" % x for x in nums[i:i + 8]))
    return ls + ["read cdb"]
