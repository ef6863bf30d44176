SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
  Keys <- McKeys
  MaxSk = 3
  MaxEntries = 6
  Variant = "real"
