SPECIFICATION Spec
CONSTANTS Depth = 7
INVARIANTS Ones Adds Snapshot
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
