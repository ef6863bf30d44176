SPECIFICATION Spec
CONSTANTS
  Levels = 1
  Mode = "values"
INVARIANTS RoundTrip Readable GenPrint
CHECK_DEADLOCK FALSE
