SPECIFICATION Spec
CONSTANT Depth = 10
INVARIANT GenPrint
CHECK_DEADLOCK FALSE
