SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- SmallKeys
  MaxSk = 2
  MaxEntries = 3
  Variant = "inline"
