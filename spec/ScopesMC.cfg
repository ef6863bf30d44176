SPECIFICATION Spec
CONSTANTS
  Cells = 3
  MaxScopes = 3
  MaxHandles = 2
  Depth = 0
INVARIANT Inv
CHECK_DEADLOCK FALSE
