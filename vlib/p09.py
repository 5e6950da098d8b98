"""P09: the linear transient solution."""
from vlib import solvegen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "models whose effective matrix is regular and whose response stays moderate (decided by a simulation before the run); values in fixed point (1e-3) with the rounding bound of each relation",
    "time steps 1/m for m in {1,2,3,4,10}, 1 to 12 steps (30 thorough), seven pairs of Newmark parameters",
]


def run(c):
    h = c.model("MCNewmark", "MCNewmark.cfg", scripts=True)
    exe = c.build("drv_fe.cpp")
    n = 700 if not c.thorough() else 8000
    sc = [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    sc += [("tr%d" % i, solvegen.transient(c.rng)) for i in range(n)]
    sc += [("trm%d" % i, solvegen.transient(c.rng, mpc=True)) for i in range(n // 4)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "transient models")
