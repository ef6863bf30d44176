SPECIFICATION Spec
CONSTANT Depth = 10
INVARIANT Inv
CHECK_DEADLOCK FALSE
