CONSTANTS
  Separated = TRUE
  Ops = 3
  MaxData = 2
SPECIFICATION Spec
INVARIANTS Determined
CHECK_DEADLOCK FALSE
