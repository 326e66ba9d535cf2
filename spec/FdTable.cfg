CONSTANTS
  MaxTh = 3
  NFd = 2
  MaxRef = 3
SPECIFICATION Spec
INVARIANT HandlesOpen
CHECK_DEADLOCK FALSE
