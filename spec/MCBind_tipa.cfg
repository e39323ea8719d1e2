CONSTANTS
  P = 3
  Rounds = 1
  Runs = 2
  BindStatement = TRUE
  Tipa = TRUE
SPECIFICATION Spec
INVARIANTS Bound Agreed
CHECK_DEADLOCK FALSE
