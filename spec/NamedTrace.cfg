CONSTANTS
  MaxTh = 8
  NKeys = 1
  MaxObj = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
