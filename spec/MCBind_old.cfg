CONSTANTS
  P = 3
  Rounds = 1
  Runs = 2
  BindStatement = FALSE
  Tipa = FALSE
SPECIFICATION Spec
INVARIANTS Bound
CHECK_DEADLOCK FALSE
