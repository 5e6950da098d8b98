SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Sizes <- SizesT
VIEW View
ACTION_CONSTRAINT Emit
