SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxHandles = 2
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
