CONSTANTS
  P = 5
  Op = "agg"
  N = 1
  Full = FALSE
  Retries = 0
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
