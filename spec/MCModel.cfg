SPECIFICATION Spec
VIEW View
CONSTANTS MaxNodes = 3 MaxEls = 1 MaxSolves = 2 Depth = 15
INVARIANTS Numbered Solvable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
