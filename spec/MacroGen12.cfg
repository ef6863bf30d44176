SPECIFICATION Spec
CONSTANT Depth = 12
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
