SPECIFICATION Spec
INVARIANT Inside
INVARIANT Sound
INVARIANT Complete
INVARIANT Readable
CHECK_DEADLOCK FALSE
CONSTANTS
  Significant <- Deep
  Roots <- Back
  MaxBody = 6
  Variant = "real"
