SPECIFICATION Spec
VIEW View
CONSTANTS MaxEls = 2 MaxMpcs = 2 MaxFix = 1 MaxLoad = 1 WithPP = 1 Solves = 2
INVARIANTS Equilibrium PrescribedHold MpcHolds Balance Chain
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
