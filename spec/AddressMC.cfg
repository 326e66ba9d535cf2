SPECIFICATION Spec
CONSTANTS
  Blocks = 2
  Places = 3
INVARIANTS Distinct Equivalent Ordered Poisoned
CHECK_DEADLOCK FALSE
