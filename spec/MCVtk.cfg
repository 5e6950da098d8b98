SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Sections CellsValid UniqueNames Numbered Geometry Zeroes
PROPERTY Kept
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
