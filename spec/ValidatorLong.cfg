SPECIFICATION Spec
INVARIANT Inside
INVARIANT Sound
INVARIANT Complete
INVARIANT Readable
CHECK_DEADLOCK FALSE
CONSTANTS
  Significant <- Long
  Roots <- Back
  MaxBody = 8
  Variant = "real"
