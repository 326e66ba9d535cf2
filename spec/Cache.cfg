CONSTANTS
  MaxTh = 2
  NKeys = 2
  MaxVal = 4
  InitMax = 2
SPECIFICATION Spec
INVARIANT OneEntryPerKey
INVARIANT Bounded
INVARIANT OneCompute
CHECK_DEADLOCK FALSE
