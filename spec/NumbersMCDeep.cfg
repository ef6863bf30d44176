INIT Start
NEXT More
INVARIANTS Signed Short Unsigned Fits Exact Rounding Single Least
CHECK_DEADLOCK FALSE
CONSTANTS
  Range <- All
