CONSTANTS
  P = 3
  Op = "gipa"
  N = 4
  Full = FALSE
  Retries = 0
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
