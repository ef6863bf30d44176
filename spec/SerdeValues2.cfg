SPECIFICATION Spec
CONSTANTS
  Levels = 2
  Mode = "values"
INVARIANTS RoundTrip Readable GenPrint
CHECK_DEADLOCK FALSE
