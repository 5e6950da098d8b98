"""P07: time stepping control."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "times and steps are dyadic rationals, so that floating point is exact; stepping past the reported end is outside the specification",
    "exhaustive: histories of 8 calls (10 thorough) over 3 start times, 3 end times, 5 step lengths; random: up to 200 steps, some with more than 65,536 steps or iterations",
]


def rand_script(r):
    unit = 1 << r.randint(0, 4)
    s = r.choice([0, 0, 0, r.randint(-20, 20) * 64])
    # the length is a multiple of 2^k so that the halving stays exact
    n = r.randint(1, 60)
    ls = ["setup %d %d" % (s, s + n * 64)]
    cur, end = s, s + n * 64
    fixed = r.choice([None, 64 * r.randint(1, 5), 128])
    it = 0
    while cur < end and len(ls) < 250:
        d = fixed or 64 * r.choice([1, 1, 2, 3, 7, 100])
        if cur + d >= end: step = end - cur
        elif cur + 2 * d >= end:
            if (end - cur) % 2: return rand_script(r)
            step = (end - cur) // 2
        else: step = d
        cur += step
        ls.append("next %d" % d)
        k = r.choice([0, 1, 1, 2, 5])
        ls += ["iter"] * k
    if r.random() < 0.9 and cur >= end:
        ls.append("next 64")
    return ls


def long_script(r):
    """more steps or iterations than 16 bits can count"""
    n = r.choice([65535, 65536, 66000, 70000]); k = r.choice([40000, 65535, 65540])
    return ["setup 0 100000", "next 64"] + r.choice([["iters %d" % k, "next 64", "iters %d" % k], ["steps %d 1" % n], ["iters %d" % k, "steps %d 1" % n]]) + ["next 64", "iter", "next 128", "iter", "iter", "next 64"]


def run(c):
    h = c.model("MCTime", "MCTimeT.cfg" if c.thorough() else "MCTime.cfg", scripts=True)
    if len(h) > 60000:
        h = c.rng.sample(h, 60000)
    exe = c.build("drv_time.cpp")
    sc = [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, rand_script(c.rng)) for i in range(1500 if not c.thorough() else 15000)]
    sc += [("long%d" % i, long_script(c.rng)) for i in range(8 if not c.thorough() else 80)]
    c.validate("TraceTime", "Trace.cfg", c.drive(exe, sc), exe, "time control")
