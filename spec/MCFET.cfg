SPECIFICATION Spec
CONSTANTS
  MaxEls = 3
  MaxMpcs = 1
  Depth = 13
VIEW View
INVARIANT Symmetric
INVARIANT Partition
INVARIANT Local
INVARIANT LambdaZero
ACTION_CONSTRAINT Emit
