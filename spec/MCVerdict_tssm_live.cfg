CONSTANTS
  P = 3
  Op = "tssm"
  N = 2
  MaxRounds = 2
  Retries = 1
SPECIFICATION Spec
INVARIANTS HasVerdict
PROPERTY Finishes Settled
CHECK_DEADLOCK FALSE
