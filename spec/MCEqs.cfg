SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Kinds = {"gauss", "pardiso"}
INVARIANTS Symmetric Sharp Factorized
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
