SPECIFICATION SpecRC
INVARIANT Kept
INVARIANT NotNegative
INVARIANT Alive
INVARIANT Found
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 5
  MaxHandles = 3
  MaxBlocks = 2
  Variant = "entry"
