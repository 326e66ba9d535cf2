SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANTS Exact Truthful Placed
CHECK_DEADLOCK FALSE
