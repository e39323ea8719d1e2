CONSTANTS
  P = 3
  Part = "K"
SPECIFICATION Spec
INVARIANTS RoundA RoundT RoundS Keys Batch AfterR
CHECK_DEADLOCK FALSE
