#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, state=list(state),
                  technique=technique or "TLA+ specification checked by TLC; behaviours replayed into the code and recorded traces validated against the specification by TLC"))


BASE = ("Model checking of the specification is exhaustive within the stated bounds; the code is bound by trace validation of "
        "every exhaustively enumerated history plus seeded random ones, so for the code the assurance is that of the executions explored. "
        "Trusted: TLC, the driver (which only translates calls and observations), g++. ")

prop("P01", "DoF registration and equation numbering",
     "Registering degrees of freedom in any order and with any repetition yields exactly the union of what elements, constraints and users asked for. "
     "Numbering gives every registered degree of freedom one distinct equation number from 1..N, the constrained ones before the unconstrained ones, and every multi-point constraint its own number right behind them; the reported counts agree with it. "
     "This stays true after solution data are dropped and the model is numbered again.",
     ["inputs", "histories"], "all meshes, DoF sets, registration orders, constraint sets and re-numberings",
     "Tests solve a handful of fixed models, never observe the numbering and never mix element DoFs, repeated constraining or re-numbering.",
     ["src/lib/Dof.h", "src/lib/Dof.cpp", "src/lib/FEStorage.cpp"],
     [("DofCollection", "src/lib/Dof.cpp"), ("assignEquationNumbers", "src/lib/FEStorage.cpp")],
     ["DoF tables, equation numbers and counters after every call"],
     "Exhaustive for DoF tables of up to 3 entities x 3 types and life cycles of 2 nodes/2 elements/1 constraint; random meshes up to 60 nodes.")
prop("P02", "Sparse matrices behave as the dense matrices they stand for",
     "A sparsity pattern accepts positions in any order with repetition before it is compressed and then holds exactly those positions once, sorted, so that a position is found if and only if it was added. "
     "General and symmetric sparse matrices accumulate added values position by position (a symmetric one treating (i,j) and (j,i) as one), read zero elsewhere, zeroing and re-initialising clears every value, and all matrix-vector, transposed and accumulating products equal those of the dense matrix. "
     "Matrices sharing one pattern never share values.",
     ["inputs", "histories"], "all shapes, patterns, insertion orders and sequences of operations",
     "sparse_math tests one fixed matrix and a few random products; search paths, sharing, repetition, empty rows and re-initialisation are not reached.",
     ["src/lib/math/SparseMatrix.h", "src/lib/math/SparseMatrix.cpp"],
     [("SparsityInfo add/compress/getIndex", "src/lib/math/SparseMatrix.cpp"), ("matBVprod family", "src/lib/math/SparseMatrix.cpp")],
     ["every entry, the arrays of the compressed format, product results"],
     "Exhaustive histories on matrices up to 3x3; random ones up to 40x40 with integer values (exact arithmetic).")
prop("P03", "Block matrices address every global position exactly once",
     "A block symmetric matrix with any split into two or more blocks represents one global symmetric matrix: a position given in global or block coordinates, in either order, addresses the same stored value and no other. "
     "Sizes are the sum of the blocks; matrices built on the pattern of another one have the same shape and pattern but values of their own.",
     ["inputs", "histories"], "all block splits, positions and histories of registering, adding, zeroing and copying",
     "No test uses block matrices directly; FE tests only exercise two-block splits with one constrained block.",
     ["src/lib/math/BlockSparseMatrix.h"],
     [("getPosition/addValue/addEntry", "src/lib/math/BlockSparseMatrix.h")],
     ["all global and block entries after each operation"],
     "Exhaustive on splits of up to 3 equations; random splits of up to 4 blocks.")
prop("P04", "Assembly of stiffness, damping, mass and load contributions",
     "After assembly every entry of the global stiffness, damping and mass matrices and of the internal load vector equals the sum of the contributions of the elements at the degrees of freedom they named, through whichever assembly call they were given, plus the constraint coefficients in the stiffness matrix; nothing else is touched. "
     "Assembling again replaces, never accumulates, and external loads add up on the degree of freedom they name.",
     ["inputs", "histories"], "all meshes (elements without repeated nodes), element matrices, DoF sets, boundary conditions and repeated assemblies",
     "Tests look only at solved results of a few homogeneous models with one element type.",
     ["src/lib/FEStorage.h", "src/lib/FEStorage.cpp", "src/lib/elements/element.h", "src/lib/Mpc.cpp"],
     [("assembleGlobalEqMatrices", "src/lib/FEStorage.cpp"), ("Element::assembleK/C/M", "src/lib/elements/element.h"), ("addValueK/C/M/F", "src/lib/FEStorage.h")],
     ["all entries of the assembled matrices and vectors"],
     "Exhaustive life cycles on 2 nodes; random models with up to 60 equations, integer matrices (exact).")
prop("P05", "The linear static solution is the solution of the assembled problem",
     "For every model with a regular stiffness matrix the linear solver returns displacements which satisfy each equilibrium equation, hold every prescribed value exactly, and reports as reactions at prescribed degrees of freedom exactly the forces which balance them; applied loads appear unchanged elsewhere. "
     "Nodal values, positions and reactions read through the model are those of the solution. "
     "Solving again - with the same or another solver, after further boundary conditions, elements or constraints - gives what a fresh model would give.",
     ["inputs", "configurations", "histories"], "all meshes, element matrices, prescribed values (repeated ones: the last counts) and loads (repeated ones add up)",
     "Tests compare a few models with reference files within a loose tolerance and mostly with zero prescribed values.",
     ["src/lib/FESolver.cpp", "src/lib/FEStorage.cpp", "src/lib/math/EquationSolver.cpp"],
     [("LinearFESolver::solve", "src/lib/FESolver.cpp")], ["U, R and the nodal getters after solve"],
     "Random models up to 40 equations; residual of every row checked in fixed point with its rounding bound.")
prop("P06", "Multi-point constraints and rigid bodies hold in the solution",
     "Every solution satisfies each linear multi-point constraint, with any number of terms, coefficients and right hand side, through Lagrange forces acting along the coefficients only. "
     "Nodes of a rigid body move as one solid with their master node: to first order in the linear solution, and by the exact finite rotation in the nonlinear one.",
     ["inputs", "configurations"], "all constraint sets compatible with the model, all slave sets and directions, all finite rotations of the master",
     "No test contains a multi-point constraint with a right hand side; rigid bodies appear in no stable test.",
     ["src/lib/Mpc.cpp", "src/lib/Mpc.h", "src/lib/FEStorage.cpp", "src/lib/FESolver.cpp"],
     [("Mpc/RigidBodyMpc::update", "src/lib/Mpc.cpp"), ("assembly of constraint rows", "src/lib/FEStorage.cpp")], ["U, R, multipliers after solve"],
     "Random constraint sets; finite rotations at multiples of 90 and 120 degrees, where the rotation matrix is integral.")
prop("P07", "Time stepping reaches exactly the end time",
     "Starting from the start time, every step advances by the requested increment except that the remainder is taken in one piece when it is at most one increment and halved when it is at most two; the last step ends at the end time, after which no step is granted. "
     "Step numbers, converged counts, iteration counts, current and normalised times and increments always describe the calls made so far, and the increment is reported only in the first iteration of a step.",
     ["inputs", "histories"], "all start/end times, increments (constant or varying) and numbers of iterations per step",
     "TimeControlTest samples one schedule from zero with one increment.",
     ["src/lib/FESolver.cpp", "src/lib/FESolver.h"], [("TimeControl::nextStep", "src/lib/FESolver.cpp")], ["every getter after every call"],
     "Exhaustive histories of 8 calls (10 thorough); random runs of up to 200 steps; dyadic times so that the arithmetic is exact.")
prop("P08", "The nonlinear solver follows the Newton-Raphson protocol",
     "For each load step loads and prescribed values follow the load factor, and each iteration solves the tangent system of the current state for the remaining imbalance and adds the correction to the state seen by the elements next. "
     "A step is accepted only when the mean correction is within the criterion and then reported once, in order, up to the full load; when the iteration limit is exhausted the solver stops with an error and never reports an unconverged state.",
     ["inputs", "histories"], "all element laws, tangents (exact or not), loads, prescribed values, step and iteration limits",
     "The nonlinear tests need reference data of a few models and look at the final result only.",
     ["src/lib/FESolver.cpp"], [("NonlinearFESolver::solve", "src/lib/FESolver.cpp")], ["state at every iteration, every report to post-processors"],
     "Random affine element laws with scaled tangents, so that every iteration has a known law; per-iteration residuals in fixed point.")
prop("P12", "Post-processors see every converged step once; reaction histories are sums",
     "Every registered post-processor is prepared once before the solution, called once per accepted step in order of registration and finished once afterwards, each time with the results of that step. "
     "A reaction processor reports, for each of its degrees of freedom (by default those constrained at its first node), an initial zero and then per step the sum of reactions over its nodes, in memory and in its file; a further solution starts a new history, and node sets which are not constrained alike are refused when the degrees of freedom are to be chosen automatically.",
     ["inputs", "histories"], "all models, numbers and orders of post-processors, node sets and DoF sets, linear and nonlinear solvers",
     "Tests with reaction processors compare one curve on one node set.",
     ["src/lib/PostProcessor.cpp", "src/lib/ReactionProcessor.cpp", "src/lib/FESolver.cpp"],
     [("initSolutionData/pre/process/post calls", "src/lib/FESolver.cpp"), ("ReactionProcessor::process", "src/lib/ReactionProcessor.cpp")],
     ["callback order, step numbers, reaction vectors and files"], "Random models; see P05 and P08.")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P.sort(key=lambda p: p["id"])
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking",
                 "level_note": BASE + p["note"]} for p in P if p["id"] not in [n["property"] for n in NA]],
     "not_applicable": NA,
     "notes": "TLA+/TLC; no hooks in /repo: the drivers in harness/ are built together with /repo's library sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
