SPECIFICATION Spec
CONSTANTS Ks = {1, 4} Cs = {0, 2} Ms = {0, 1} Ps = {0, 6} Inits = {0, 3} Params <- ParamsQ MaxSteps = 3
INVARIANTS Ok Relax
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
