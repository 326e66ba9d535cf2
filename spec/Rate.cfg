CONSTANTS
  MaxTh = 2
  MaxC = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
PROPERTY LetGo
CONSTRAINT Small
