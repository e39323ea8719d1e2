CONSTANTS
  P = 3
  Op = "agg"
  N = 4
  Full = FALSE
  Retries = 0
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
