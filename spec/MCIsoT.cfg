SPECIFICATION Spec
CONSTANTS Depth = 10
INVARIANTS Ones Adds Snapshot
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
