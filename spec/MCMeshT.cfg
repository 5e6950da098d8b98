SPECIFICATION Spec
VIEW View
CONSTANTS Nums0 = {1, 2, 3, 5} MaxNodes = 3 Depth = 8
INVARIANTS Legal Isomorphic
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
