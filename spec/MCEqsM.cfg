SPECIFICATION Spec
CONSTANTS
  Depth = 0
  Kinds = {"gauss", "pardiso"}
INVARIANTS Symmetric Sharp Factorized
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
