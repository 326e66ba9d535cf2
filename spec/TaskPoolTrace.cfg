CONSTANTS
  NT = 6
  NE = 2
  NB = 2
  MaxTh = 24
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
