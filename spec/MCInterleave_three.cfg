CONSTANTS
  P = 3
  Shared = FALSE
  Calls = 3
  Rounds = 1
SPECIFICATION Spec
INVARIANTS Undisturbed
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
