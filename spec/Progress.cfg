CONSTANTS
  MaxTh = 2
  MaxV = 3
  MaxHeld = 3
SPECIFICATION Spec
INVARIANT Safe
PROPERTY EndSticky
PROPERTY BeginBack
CHECK_DEADLOCK FALSE
