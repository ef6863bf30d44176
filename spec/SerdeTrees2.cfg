SPECIFICATION Spec
CONSTANTS
  Levels = 2
  Mode = "trees"
INVARIANTS RoundTrip Readable GenPrint
CHECK_DEADLOCK FALSE
