SPECIFICATION Spec
CONSTANT Depth = 12
INVARIANT Inv
CHECK_DEADLOCK FALSE
