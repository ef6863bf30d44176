SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxRefused = 6
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
