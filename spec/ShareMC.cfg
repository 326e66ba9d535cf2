SPECIFICATION MCSpec
CONSTANTS
 Workers = {1, 2}
 MaxLen = 2
 Firsts = 2
 Copies = 2
 Together = FALSE
INVARIANT SharedAtRest
PROPERTIES Kept Ends
CHECK_DEADLOCK FALSE
