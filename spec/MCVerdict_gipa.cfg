CONSTANTS
  P = 3
  Op = "gipa"
  N = 2
  MaxRounds = 2
  Retries = 0
SPECIFICATION Spec
INVARIANTS HasVerdict
PROPERTY Settled
CHECK_DEADLOCK FALSE
