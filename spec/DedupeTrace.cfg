CONSTANTS
  Check = "none"
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
