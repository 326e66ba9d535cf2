SPECIFICATION Spec
INVARIANTS NothingLost Stopped OnDisk MayWrite
CHECK_DEADLOCK FALSE
CONSTANTS
  History = TRUE
  MaxTh = 2
  MaxOps = 4
  NAddr = 1
  MaxFail = 1
