CONSTANTS
  NT = 3
  NE = 1
  NB = 1
  MaxOps = 4
  WithControl = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK QueuesExact WaitersHaveLiveTarget PrecExact AgainMeansExecuting DeadIsDone NothingQueuedAfterCancel NoLostSubmission RestIsRest
PROPERTIES ThreadBound DependentsWait OneHolder BarrierHolds
CHECK_DEADLOCK FALSE
