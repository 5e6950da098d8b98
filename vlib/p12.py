"""P12: post-processing protocol and reaction history."""
from vlib import solvegen
LEVEL = "model_checking"
ASSUMPTIONS = ["see P05 and P08 for the models; reaction files carry six significant digits"]


def run(c):
    exe = c.build("drv_fe.cpp")
    h = c.model("MCSolve", "MCSolveP.cfg", scripts=True) + c.model("MCNewton", "MCNewton.cfg", scripts=True)
    n = 600 if not c.thorough() else 6000
    sc = [("lr%d" % i, solvegen.linear(c.rng, react=True, mpc=i % 3 == 0, tag=str(i), again=i % 2 == 0)) for i in range(n)]
    sc += [("nr%d" % i, solvegen.newton(c.rng, react=True, tag="n%d" % i)) for i in range(n // 2)]
    sc += [("mx%d" % i, solvegen.mixed_set(c.rng, "m%d" % i)) for i in range(n // 6)]
    sc += [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    c.validate("TraceFE", "Trace.cfg", c.drive(exe, sc), exe, "random models")
