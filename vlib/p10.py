"""P10: mesh readers."""
from vlib import meshgen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "documents in the formats the reader documents: NBLOCK, EBLOCK (up to eight nodes per element), D, F, CE, CMBLOCK, comments and unknown commands in between; LF, CRLF or CR line ends",
    "values are multiples of 1/8, so that reading them is exact; DoF labels in upper case",
]


def run(c):
    h = c.model("MCMesh", "MCMesh.cfg", scripts=True)
    exe = c.build("drv_mesh.cpp")
    n = 1200 if not c.thorough() else 20000
    sc = [("cdb%d" % i, meshgen.cdb(c.rng, i % 5 == 0)) for i in range(n)]
    sc += [("neu%d" % i, meshgen.neu(c.rng)) for i in range(n // 4)]
    sc.append(("big", meshgen.big_comp()))
    c.validate("TraceMesh", "Trace.cfg", c.drive(exe, sc, limit=60), exe, "mesh files")
