CONSTANTS
  Separated = FALSE
  Ops = 3
  MaxData = 2
SPECIFICATION Spec
INVARIANTS Determined
CHECK_DEADLOCK FALSE
