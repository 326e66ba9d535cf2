SPECIFICATION MCSpec
CONSTANTS
 NameSet = {"a", "b", "c"}
 Objects <- Objs
 MaxMoves = 3
 Mistake = ""
INVARIANTS OnlyWanted Usable NoGivingUp
CHECK_DEADLOCK FALSE
