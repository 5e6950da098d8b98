SPECIFICATION Spec
CONSTANTS
  NV = 3
  All = TRUE
  Depth = 14
INVARIANTS Owned Single Inside
PROPERTIES Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
