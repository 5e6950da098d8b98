SPECIFICATION Spec
CONSTANTS
  Starts <- StartsQ
  Ends <- EndsQ
  Deltas <- DeltasQ
  Depth = 8
VIEW View
INVARIANT Bounded
INVARIANT Monotone
INVARIANT FinalIsEnd
INVARIANT NeverTooLong
PROPERTY Growing
ACTION_CONSTRAINT Emit
