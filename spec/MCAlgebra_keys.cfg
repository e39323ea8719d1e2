CONSTANTS
  P = 3
  Part = "keys"
SPECIFICATION Spec
INVARIANTS Bilinear Division KzgExact SrsExact KeyOpenings RowsCover
CHECK_DEADLOCK FALSE
