CONSTANTS
  MaxTh = 8
  NK = 1
  Cap = 1
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
