SPECIFICATION Spec
CONSTANTS
  Cells = 3
  MaxScopes = 3
  MaxHandles = 1
  Depth = 5
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
