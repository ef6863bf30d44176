SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Cells = {1, 2}
  MaxScopes = 3
  Fuel = 4
  Variant = "real"
INVARIANTS Right Available AtRest Exclusive
