SPECIFICATION Spec
INVARIANT Inside
INVARIANT Sound
INVARIANT Complete
INVARIANT Readable
CHECK_DEADLOCK FALSE
CONSTANTS
  Significant <- Wide
  Roots <- AllRoots
  MaxBody = 4
  Variant = "real"
