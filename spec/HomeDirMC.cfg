SPECIFICATION MCSpec
CONSTANTS State = {"s"}
 Kinds = {"plain", "old", "new"}
 MaxFiles = 4
 MaxCrash = 2
 Mistake = ""
INVARIANTS Readable CanSave
PROPERTY Stays
CHECK_DEADLOCK FALSE
