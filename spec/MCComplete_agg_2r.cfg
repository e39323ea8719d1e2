CONSTANTS
  P = 3
  Op = "agg"
  N = 2
  Full = FALSE
  Retries = 1
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
