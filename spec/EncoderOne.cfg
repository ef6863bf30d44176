SPECIFICATION Spec
CONSTANTS
  Depth = 7
  MaxRefused = 1
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
