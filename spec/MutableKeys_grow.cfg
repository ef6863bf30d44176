SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "c"}
  Values = {1, 2}
  Variant = "grow"
INVARIANT Inv
CHECK_DEADLOCK FALSE
