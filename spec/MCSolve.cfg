SPECIFICATION Spec
VIEW View
CONSTANTS MaxEls = 2 MaxMpcs = 0 MaxFix = 2 MaxLoad = 1 WithPP = 1 Solves = 1
INVARIANTS Equilibrium PrescribedHold MpcHolds Balance Chain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
