SPECIFICATION Spec
INVARIANTS Refused Silent Complete Compared
PROPERTIES Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
