SPECIFICATION Spec
VIEW View
CONSTANTS MaxEls = 3 MaxMpcs = 0 MaxFix = 3 MaxLoad = 2 WithPP = 1 Solves = 1
INVARIANTS Equilibrium PrescribedHold MpcHolds Balance Chain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
