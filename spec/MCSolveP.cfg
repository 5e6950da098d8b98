SPECIFICATION Spec
VIEW View
CONSTANTS MaxEls = 1 MaxMpcs = 0 MaxFix = 2 MaxLoad = 1 WithPP = 3 Solves = 2
INVARIANTS Equilibrium PrescribedHold MpcHolds Balance Chain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
