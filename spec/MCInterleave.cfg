CONSTANTS
  P = 3
  Shared = FALSE
  Calls = 2
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Undisturbed
CHECK_DEADLOCK FALSE
