CONSTANTS
  P = 3
  Shared = TRUE
  Calls = 2
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Undisturbed
CHECK_DEADLOCK FALSE
