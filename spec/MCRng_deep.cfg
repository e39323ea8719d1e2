CONSTANTS
  Separated = TRUE
  Ops = 4
  MaxData = 2
SPECIFICATION Spec
INVARIANTS Determined
CHECK_DEADLOCK FALSE
