CONSTANTS
  P = 5
  Part = "A"
SPECIFICATION Spec
INVARIANTS RoundA RoundT RoundS Keys Batch AfterR
CHECK_DEADLOCK FALSE
