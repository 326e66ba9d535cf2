SPECIFICATION Spec
CONSTANTS
  End = 8
  Mistake = ""
INVARIANTS Correct Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
