SPECIFICATION Spec
CONSTANT MaxKeys = 2048
CHECK_DEADLOCK FALSE
