SPECIFICATION TSpec
CONSTANT NV = 3
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
