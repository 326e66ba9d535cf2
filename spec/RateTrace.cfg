CONSTANTS
  MaxTh = 8
  MaxC = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
