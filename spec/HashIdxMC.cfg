SPECIFICATION Spec
INVARIANTS Bounded NotInvented Once
PROPERTY LosesNothing
CHECK_DEADLOCK FALSE
CONSTANTS
  NHash = 3
  NAddr = 3
  Cap = 3
