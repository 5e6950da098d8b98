SPECIFICATION Spec
CONSTANTS
  MaxEls = 2
  MaxMpcs = 1
  Depth = 10
VIEW View
INVARIANT Symmetric
INVARIANT Partition
INVARIANT Local
INVARIANT LambdaZero
ACTION_CONSTRAINT Emit
