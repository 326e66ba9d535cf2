SPECIFICATION MCSpec
CONSTANTS
 Units = 3
 Workers = 2
 MaxSig = 3
 Mistake = ""
INVARIANT Kept
PROPERTIES NoneWhilePaused Ends Works
CHECK_DEADLOCK FALSE
