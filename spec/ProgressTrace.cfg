CONSTANTS
  MaxTh = 8
  MaxV = 8
  MaxHeld = 0
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
