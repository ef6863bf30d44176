SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "c"}
  Values = {1, 2}
  Variant = "real"
INVARIANT Inv
CHECK_DEADLOCK FALSE
