SPECIFICATION Spec
CONSTANTS
  Cells = 2
  MaxScopes = 3
  MaxHandles = 1
  Depth = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
