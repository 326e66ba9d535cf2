SPECIFICATION Spec
CONSTANTS
  Sz = 10
  Digit <- Three
INVARIANTS In Paired Meets Ordered
PROPERTY Directions
CHECK_DEADLOCK FALSE
