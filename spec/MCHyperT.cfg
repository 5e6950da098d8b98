SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Dims = {2, 3}
INVARIANTS Cube Deviatoric Objective Shape Geometry Balance
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
