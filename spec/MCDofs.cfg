SPECIFICATION Spec
CONSTANTS
  NE = 3
  T = {"UX", "UZ", "TEMP"}
  Depth = 5
VIEW View
INVARIANT Consistent
ACTION_CONSTRAINT Emit
