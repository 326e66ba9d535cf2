CONSTANTS
  Users = {1, 2}
  NBlocks = 1
  Excl = {}
  RO = {}
  Contents = {0, 1, 2}
  MaxPhys = 2
SPECIFICATION MSpec
INVARIANT Unchanged
INVARIANT Excluded
INVARIANT NotLent
INVARIANT PreIsZero
INVARIANT OneContent
INVARIANT Offers
CHECK_DEADLOCK FALSE
