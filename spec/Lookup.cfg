SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- SmallKeys
  MaxSk = 3
  MaxEntries = 4
  Variant = "real"
