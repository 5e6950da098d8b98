SPECIFICATION Spec
CONSTANTS
  NV = 3
  All = FALSE
  Depth = 2
INVARIANTS Owned Single Inside
PROPERTIES Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
