"""P05: the linear static solution."""
from vlib import solvegen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "models whose reduced system is regular (decided exactly, in rationals) and moderate in size; residuals are checked in fixed point (1e-4) with the rounding bound of each row",
    "Gauss dense solver (the default); PARDISO: P15",
]


def run(c):
    exe = c.build("drv_fe.cpp")
    h = c.model("MCSolve", "MCSolveT.cfg" if c.thorough() else "MCSolve.cfg", scripts=True)
    n = 1200 if not c.thorough() else 15000
    sc = [("lin%d" % i, solvegen.linear(c.rng, again=i % 4 == 0)) for i in range(n)]
    sc += [("linm%d" % i, solvegen.linear(c.rng, mpc=True)) for i in range(n // 4)]
    sc += [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "random models")
