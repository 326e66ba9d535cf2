CONSTANTS
  MaxTh = 10
  MaxObj = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
