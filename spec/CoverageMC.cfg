SPECIFICATION MCSpec
CONSTANTS Files = {1, 2}
 MaxExtents = 3
 MaxTid = 4
 MaxCrash = 1
 Shortcut = ""
INVARIANT SafeAtSave
PROPERTY StepForward
CHECK_DEADLOCK FALSE
