SPECIFICATION Spec
CONSTANTS
  Mats = {1, 2}
  Shapes <- ShapesQ
  Vals <- ValsQ
  Kinds = {"gen", "sym"}
  Depth = 5
INVARIANTS TypeOK ValuesCoverPattern Symmetric UpperOnly RowsBounded
PROPERTY FixedPattern
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
