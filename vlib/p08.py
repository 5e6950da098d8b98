"""P08: the Newton-Raphson protocol of the nonlinear solver."""
from vlib import solvegen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "scripted elements with an affine internal force and a scaled tangent, so that every iteration has a known law; multi-point constraints with zero right hand side",
    "values are compared in fixed point (1e-4) with the rounding bound of each row",
]


def run(c):
    exe = c.build("drv_fe.cpp")
    h = c.model("MCNewton", "MCNewton.cfg", scripts=True)
    n = 500 if not c.thorough() else 6000
    sc = [("nl%d" % i, solvegen.newton(c.rng)) for i in range(n)]
    sc += [("nlm%d" % i, solvegen.newton(c.rng, mpc=True)) for i in range(n // 2)]
    sc += [("ref%d" % i, solvegen.refused(c.rng)) for i in range(20 if not c.thorough() else 100)]
    sc += [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "random models")
