SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS Symmetric Translation Rotation Diagonal Balance SelfBalance Moments Fields Work
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
