CONSTANTS
  P = 3
  Op = "sipp"
  N = 2
  Full = TRUE
  Retries = 1
SPECIFICATION Spec
INVARIANTS Complete SentIsExpected FoldInvariant SippInvariant KeyForms
CHECK_DEADLOCK FALSE
