SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Dims = {2, 3}
INVARIANTS Cube Deviatoric Objective Shape Geometry Balance
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
