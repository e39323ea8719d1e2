CONSTANTS
  P = 3
  Op = "gipa"
  N = 2
  Full = FALSE
  Retries = 1
SPECIFICATION Live
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
PROPERTY Finishes
CHECK_DEADLOCK FALSE
