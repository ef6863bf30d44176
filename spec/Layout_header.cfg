SPECIFICATION Spec
INVARIANTS Reads Searchable Aligned
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 8
  Hard = 8
  LongCount = 3
  Sizes = {3, 6}
  Keys = {1,11}
  Calls = 5
  Prefixes = {0, 3}
  Variant = "header"
