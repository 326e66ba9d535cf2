CONSTANTS
  MaxTh = 4
  NK = 2
  Cap = 1
SPECIFICATION Spec
INVARIANT OneKind
INVARIANT CapOk
CHECK_DEADLOCK TRUE
