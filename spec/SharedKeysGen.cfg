SPECIFICATION GenSpec
CONSTANTS
  MaxKeys = 2048
  Keys <- GenKeys
  MaxSets = 2
  Depth = 4
  Emit = TRUE
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
