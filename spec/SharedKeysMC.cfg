SPECIFICATION Spec
CONSTANTS
  MaxKeys = 2
  Keys <- McKeys
  MaxSets = 3
  Depth = 0
  Emit = FALSE
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
