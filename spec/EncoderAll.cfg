SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxRefused = 5
INVARIANTS Inv GenPrint
CHECK_DEADLOCK FALSE
