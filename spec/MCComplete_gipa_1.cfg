CONSTANTS
  P = 5
  Op = "gipa"
  N = 1
  Full = FALSE
  Retries = 1
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
