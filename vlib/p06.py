"""P06: multi-point constraints and rigid bodies."""
from vlib import solvegen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "models whose reduced system is regular (decided exactly, in rationals) and moderate in size; residuals are checked in fixed point (1e-4) with the rounding bound of each row",
    "Gauss dense solver (the default); PARDISO: P15",
]


def run(c):
    exe = c.build("drv_fe.cpp")
    h = c.model("MCSolve", "MCSolveMT.cfg" if c.thorough() else "MCSolveM.cfg", scripts=True)
    n = 600 if not c.thorough() else 15000
    sc = [("mpc%d" % i, solvegen.linear(c.rng, mpc=True, again=i % 4 == 0)) for i in range(n)]
    sc += [("rig%d" % i, solvegen.linear(c.rng, rigid=True, again=i % 3 == 0)) for i in range(n)]
    sc += [("turn%d" % i, solvegen.turning(c.rng)) for i in range(n // 2)]
    sc += [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "random models")
