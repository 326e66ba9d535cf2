CONSTANTS
  MaxTh = 2
  NKeys = 2
  MaxObj = 3
SPECIFICATION Spec
INVARIANT HeldAlive
INVARIANT OneName
INVARIANT OneCompute
CHECK_DEADLOCK FALSE
