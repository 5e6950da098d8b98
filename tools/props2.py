prop("P09", "The transient solver integrates the equations of motion by Newmark's rule",
     "From the uniform initial value at rest the transient solver makes exactly the requested number of equal time steps. In each, the new state satisfies M*a + C*v + K*u = f at every unconstrained degree of freedom and constraint row, where accelerations and velocities follow from the displacements by Newmark's formulas with the given two parameters, and prescribed values stay as prescribed. "
     "Each step is reported once, in order.",
     ["inputs", "configurations"], "all linear models, Newmark parameters, step counts, time intervals, initial and prescribed values",
     "The transient test compares one thermal model (no mass, zero prescribed values) at a few nodes.",
     ["src/lib/FESolver.cpp", "src/lib/FEStorage.cpp"], [("LinearTransientFESolver::solve", "src/lib/FESolver.cpp")],
     ["displacements, velocities and accelerations after every step"],
     "864 one- and two-mass oscillators enumerated; 875 random models; every row's residual in fixed point with its rounding bound.")
prop("P10", "Reading a mesh file yields exactly the mesh the file describes",
     "Reading an ANSYS archive file gives the nodes, elements (with their connectivity, in order), constraints (D), forces (F), constraint equations (CE, any number of terms) and node or element components (CMBLOCK, ranges expanded) which its text lists, whatever the order and number of the commands, comments and unknown commands between them, blank fields and kind of line ends; a neutral file gives its nodes and elements. "
     "A mesh read into used data replaces them entirely; a file which cannot be opened is refused and changes nothing.",
     ["inputs"], "all documents of the supported commands (elements of up to eight nodes; components whose name begins with an underscore are skipped)",
     "Tests read a few files and check counts and sample entries.",
     ["src/lib/FEReaders.cpp", "src/lib/FEReaders.h"], [("readCdbFile", "src/lib/FEReaders.cpp"), ("readNeuFile", "src/lib/FEReaders.cpp"), ("Tokenizer", "src/lib/FEReaders.cpp")],
     ["all members of the mesh data after reading"],
     "1200 generated archive and 300 neutral files, one with 70000 component ranges; values exact.")
prop("P11", "Compressing node numbers keeps the mesh the same mesh",
     "After compressing, the node listed at place k has number k, and every element, constraint, force, constraint equation and node component refers to the same nodes as before; nothing else changes. Compressing twice is compressing once.",
     ["inputs", "histories"], "all meshes with distinct node numbers, in any order and with any gaps, and all references to them",
     "One test compresses one mesh whose nodes are listed in increasing order.",
     ["src/lib/FEReaders.cpp"], [("MeshData::compressNumbers", "src/lib/FEReaders.cpp")], ["all members of the mesh data before and after"],
     "Exhaustive for up to 3 nodes with numbers from {1,2,3,5}; 2000 random meshes and files.")
prop("P13", "The linear elements implement their continuum laws exactly",
     "The bar (TRUSS3), plane (TRIANGLE4, plane strain and plane stress), solid (TETRA0), heat conduction (TETRA1, QUADTH with its surface LINETH) and interface (INTER0, INTER3) elements assemble the stiffness or conductivity, capacity and load terms which the Galerkin form of linear elasticity or heat conduction gives for their shape functions, geometry, position, orientation and material data, including initial strains and stresses, thermal strains, sources, fluxes and film exchange. "
     "Strains, stresses, gradients, fluxes, volumes and jumps reported for a given state are those of that state alone, scaled and accumulated as asked; results never change what is assembled later.",
     ["inputs", "histories"], "all positively oriented elements, material data, node numberings, meshes mixing element types, and sequences of updates and assemblies",
     "Tests compare a few solved models with reference curves; one material, regular geometry, no plane stress, no combined initial states.",
     ["src/lib/elements/TRUSS3.cpp", "src/lib/elements/TRIANGLE4.cpp", "src/lib/elements/TETRA0.cpp", "src/lib/elements/TETRA1.cpp", "src/lib/elements/QUADTH.cpp", "src/lib/elements/INTER0.cpp", "src/lib/elements/INTER3.cpp", "src/lib/elements/isoparametric.cpp"],
     [("buildK/buildC", "src/lib/elements/*.cpp"), ("update, getScalar/getVector/getTensor", "src/lib/elements/*.cpp")],
     ["assembled matrices and load vectors, element results"],
     "Formulas in exact rational arithmetic; their laws (symmetry, rigid motions, balance, linear fields, work) checked by TLC on about 4,500 lattice elements; code compared entry by entry on those and on 1200 random meshes.")
prop("P14", "VTK files hold the model's geometry, fields and results",
     "For every solution the VTK post-processor writes one file numbered 0 before it and one per step under the number of the step, and nothing else. "
     "Each holds all nodes at their initial positions, all elements with their nodes and the cell type of their shape, the displacement and reaction vectors if there are displacement degrees of freedom, one field per other kind of nodal or element degree of freedom, and the requested element results (or all the elements can answer), with zero where a node or element has no such value.",
     ["inputs", "histories"], "all models over the supported element shapes, DoF sets, requested results and numbers of steps",
     "No test reads a VTK file back.",
     ["src/lib/VtkProcessor.cpp", "src/lib/VtkProcessor.h"], [("pre/process/write_*", "src/lib/VtkProcessor.cpp")], ["the files found after each call, read back"],
     "Every order of up to three calls on two models, 800 random histories; files parsed by an independent reader.")
prop("P15", "Equation solvers solve every regular system they are given",
     "Whatever was factorized or solved before, with the same or another solver, with the same or another matrix of another size or sparsity, solving returns the solution of exactly the given system in any order of rows and any consistent units, substituting returns the solution for the matrix factorized last, the matrix stays what it was, and solvers can be made and dropped at any time. "
     "Positive definite systems, systems with constraint rows (zero diagonal) and regular indefinite ones are covered; models solved with PARDISO give what they give with the default solver.",
     ["inputs", "histories"], "all regular symmetric systems that finite element models lead to, all sequences of factorizations, substitutions and solutions",
     "Tests solve each model once, with one solver, one matrix and one sparsity.",
     ["src/lib/math/EquationSolver.cpp", "src/lib/math/EquationSolver.h"], [("GaussDenseEquationSolver, PARDISO_equationSolver", "src/lib/math/EquationSolver.cpp"), ("setupEquationSolver/attachEquationSolver", "src/lib/FESolver.cpp")],
     ["matrix, right hand side and returned unknowns of every call"],
     "All 1,200 regular matrices of order 2 and 3 with small entries, every order of three calls on three matrices, 1000 random histories of several solvers and matrices, 750 models with PARDISO.")
prop("P16", "Hyperelastic elements obey their law in every state",
     "For SOLID81 and PLANE41 meshes of any shape, with any of the hyperelastic materials and in any state of (large) displacements and pressures: forces, stresses (second Piola-Kirchhoff and Cauchy), strains, invariants, strain energies and volumes are those of the law; "
     "the forces are in balance and derive from the reported energy, the stiffness matrix is the derivative of the forces, the volume equation holds the pressure to the change of volume; "
     "a rigid motion on top turns forces and Cauchy stress and changes nothing else; queries add to what they are given, scaled as asked, and write nowhere else; a block whose outer nodes are moved affinely deforms affinely inside.",
     ["inputs"], "all element shapes, node orders, materials, states of displacement and pressure, rigid motions",
     "Tests compare a few displacements and one pressure of fixed models with one material to another program; stresses, energies, tangents and large rotations are not observed.",
     ["src/lib/elements/SOLID81.cpp", "src/lib/elements/PLANE41.cpp", "src/lib/materials/materials_hyperelastic.cpp", "src/lib/materials/material.cpp", "src/lib/elements/isoparametric.h"],
     [("buildK/update/getScalar/getVector/getTensor", "src/lib/elements/SOLID81.cpp"), ("buildK/update/getVector/getTensor", "src/lib/elements/PLANE41.cpp"), ("getS_UP/getDdDp_UP/W", "src/lib/materials/materials_hyperelastic.cpp")],
     ["assembled forces and stiffness, and every result query, in prescribed states; solutions of patches"],
     "Every sequence of two (thorough: three) elementary deformations of five elements with four materials; 400 random affine and 400 random general states of distorted meshes, 100 solved patches. Affine states are exact (rational), derivatives are central differences compared to 1/2000.")
prop("P17", "The nla3d program does what the file and the command line say",
     "Run on an archive file with a model whose solution is known (driven by displacements, loads, constraint equations or a rigid body), the program reports one row of reactions per loadstep from 0 on, in the order of the degrees of freedom asked for, holding the forces of the exact solution at that step; writes one VTK file per step unless told not to; "
     "and exits with 0 exactly if no reference curve was given or the mean difference from it is within the threshold. Whatever the numbers of the nodes in the file, the order of blocks and of arguments. "
     "A wrong command line or file (missing or unknown material, wrong number of constants, unknown element, component, master node or file, too few iterations) is refused with a non-zero status and no results.",
     ["inputs"], "all archive files of the supported commands and all command lines",
     "Tests run the program on four files with one command line each and compare one curve with a wide threshold.",
     ["src/main.cpp", "src/lib/FEReaders.cpp", "src/lib/FESolver.cpp", "src/lib/ReactionProcessor.cpp"], [("main/parse_args/compareCurves/readRefCurveData", "src/main.cpp")],
     ["exit status, table of reactions and files of the program, run in a scratch directory"],
     "All 57,600 combinations of right, wrong and absent options are enumerated and 450 run (thorough: 6,000 and all the right ones) with both solvers, 300 (3,000) random files with each.")
prop("P18", "Dense vectors and matrices compute what they are said to",
     "Vectors and views into them: a view shows the memory of its vector, whatever assignments, resizings, copies, swaps, additions, scalings, fills and zeroings happen, in any order, to owners and views; nothing outside the addressed part is written, no memory is used after its release, a vector refused an operation is unchanged. "
     "Fixed, symmetric and dynamic matrices: products, transposed products, B^T*D*B forms, determinants, inverses, invariants, eigenvalues and conversions are those of the matrices they stand for, for every size used by the elements, and the accumulating products add to what they are given.",
     ["inputs", "histories"], "all sequences of operations on vectors and views of any size, all matrices of the sizes in use",
     "Tests multiply matrices of recorded data and assign a vector once; aliasing, views after resizing, and equal eigenvalues never occur.",
     ["src/lib/math/Vec.h", "src/lib/math/Vec.cpp", "src/lib/math/Mat.h", "src/lib/math/Mat.cpp"], [("dVec", "src/lib/math/Vec.h"), ("Mat/MatSym/dMat, matBTDB and other products", "src/lib/math/Mat.h")],
     ["contents of every vector and view after every call, results of every product, under AddressSanitizer"],
     "Every pair (thorough: triple) of operations on four vectors and views is enumerated with the sharing of memory, 1000 of those and 1200 random histories replayed, 800 scripts of matrices with exact integer and rational results.")

prop("P19", "A model is what it is now, whatever was done to it before",
     "Nodes, elements, constraints, rigid bodies and components may be created, changed and deleted in any order, before, between and after solutions; every solution is that of the model as it is at that moment, and nothing that was deleted has any effect or is used afterwards. Entities are numbered from 1 in the order of creation; components are found by name and index with the type and list they were given; an element asked for by the name of its type is of that type, unknown names are refused. "
     "A dump of the assembled system contains every matrix block and vector exactly; comparison with it succeeds for the same system and fails for one that differs.",
     ["histories", "inputs"], "all sequences of edits, deletions, solutions, dumps and comparisons",
     "Every test builds one model, solves it once and exits; nothing is ever deleted, and comparisons are made with stored files at a wide threshold.",
     ["src/lib/FEStorage.h", "src/lib/FEStorage.cpp", "src/lib/Mpc.cpp", "src/lib/FEComponent.cpp", "src/lib/elements/ElementFactory.cpp", "src/lib/FESolver.cpp"], [("delete*/create*/add*, initDofs", "src/lib/FEStorage.cpp"), ("dumpMatricesAndVectors/compareMatricesAndVectors", "src/lib/FESolver.cpp")],
     ["numbers of entities after every call, the solution of every solve, files of dumps, under AddressSanitizer"],
     "Every short history of edits and two solutions on up to 3 nodes and 1 (thorough: 2) elements, differing in what was deleted or changed when, is enumerated and 1,200 (20,000) replayed; 400 (6,000) random histories with up to four solutions and 400 (6,000) with dumps.")
prop("P20", "Isoparametric elements integrate and map exactly",
     "For line, quadrangle and hexahedron elements of any shape: shape functions are 1 at their own node, 0 at the others, add up to one everywhere and reproduce the coordinates; their derivatives in natural and global coordinates are the derivatives of those functions on the element as its nodes are now; "
     "the volume (area, length) and the integrals of shape functions, derivatives and polynomials are exact up to the degree which the chosen integration order promises, for every order asked for (orders out of range give the nearest one).",
     ["inputs", "histories"], "all positively oriented elements, all integration orders, sequences of changing nodes and order and recomputing",
     "A test compares the volumes of a few fixed elements for each order; derivatives, moments, recomputations after a change and orders out of range are never looked at.",
     ["src/lib/elements/isoparametric.h", "src/lib/elements/isoparametric.cpp"], [("makeJacob, intWeight, volume, formFunc, NiXj", "src/lib/elements/isoparametric.h"), ("makeJacob, formFunc, intFormFunc", "src/lib/elements/isoparametric.cpp")],
     ["volume, weights, integrals and shape functions read after every recomputation"],
     "Every element moved node by node on a small lattice with every order is enumerated to depth 7 (thorough: 10) with the laws of the integrals checked by TLC, 600 (6,000) of those and 500 (8,000) random histories replayed and judged with exact integer integrals (Simpson's rule on scaled natural coordinates).")
