SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS Symmetric Translation Rotation Diagonal Balance SelfBalance Moments Fields Work
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
