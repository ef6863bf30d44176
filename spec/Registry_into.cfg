SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Cells = {1}
  MaxScopes = 3
  Fuel = 4
  Variant = "into"
INVARIANTS Right Available AtRest Exclusive
