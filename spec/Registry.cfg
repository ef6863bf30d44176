SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Cells = {1, 2}
  MaxScopes = 3
  Fuel = 3
  Variant = "real"
INVARIANTS Right Available AtRest Exclusive
