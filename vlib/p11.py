"""P11: compressing node numbers."""
from vlib import meshgen
LEVEL = "model_checking"
ASSUMPTIONS = [
    "every node reference is to a node of the mesh; node numbers are distinct",
    "exhaustive: meshes of up to 3 nodes with numbers from {1,2,3,5}, one cell, constraint equation, component, boundary condition",
]


def direct(r, big):
    d = meshgen.Doc(r, big).make()
    ls = [x for recs, _ in d.out for x in recs]
    return ls + ["dump", "compress"] + ["compress"] * r.choice([0, 1])


def run(c):
    h = c.model("MCMesh", "MCMeshT.cfg" if c.thorough() else "MCMesh.cfg", scripts=True)
    exe = c.build("drv_mesh.cpp")
    n = 1500 if not c.thorough() else 20000
    sc = [("mc%d" % i, c.to_lines(x)) for i, x in enumerate(h)]
    sc += [("rnd%d" % i, direct(c.rng, i % 3 == 0)) for i in range(n)]
    sc += [("file%d" % i, meshgen.cdb(c.rng, i % 5 == 0, comp=True)) for i in range(n // 3)]
    c.validate("TraceMesh", "Trace.cfg", c.drive(exe, sc, limit=60), exe, "mesh data")
