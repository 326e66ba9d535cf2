CONSTANTS
  History = TRUE
  MaxTh = 3
  Check = "C12"
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
