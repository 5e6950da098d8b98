SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Sizes <- SizesQ
VIEW View
ACTION_CONSTRAINT Emit
