SPECIFICATION Spec
CONSTANTS
  Depth = 8
  MaxRefused = 1
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
