SPECIFICATION Spec
CONSTANTS
  Levels = 1
  Mode = "trees"
INVARIANTS RoundTrip Readable GenPrint
CHECK_DEADLOCK FALSE
