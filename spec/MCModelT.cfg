SPECIFICATION Spec
VIEW View
CONSTANTS MaxNodes = 3 MaxEls = 2 MaxSolves = 2 Depth = 16
INVARIANTS Numbered Solvable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
