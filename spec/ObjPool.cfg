CONSTANTS
  MaxTh = 2
  MaxObj = 3
SPECIFICATION Spec
INVARIANT Apart
INVARIANT UsersOk
CHECK_DEADLOCK FALSE
