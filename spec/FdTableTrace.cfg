CONSTANTS
  MaxTh = 8
  NFd = 1
  MaxRef = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
