CONSTANTS
  MaxTh = 8
  NKeys = 1
  MaxVal = 1
  InitMax = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
