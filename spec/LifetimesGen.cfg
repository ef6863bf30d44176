SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxHandles = 3
  MaxBlocks = 1
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
