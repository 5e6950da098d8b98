SPECIFICATION Spec
CONSTANTS Steps = {1, 2, 3, 4} Tangs = {1, 2, 3, 4} Limits = {1, 2, 5, 20, 60} MaxPP = 3
INVARIANTS Sound Complete Limited RefusedNotReported
PROPERTIES Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
