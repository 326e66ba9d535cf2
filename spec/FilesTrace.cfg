SPECIFICATION TSpec
CONSTANTS
  Check = "C22"
CHECK_DEADLOCK FALSE
