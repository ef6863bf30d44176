SPECIFICATION Spec
INVARIANTS Reads Searchable Aligned
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 10
  Hard = 12
  LongCount = 3
  Sizes = {3, 6}
  Keys = {1,11,12}
  Calls = 7
  Prefixes = {0, 3}
  Variant = "real"
