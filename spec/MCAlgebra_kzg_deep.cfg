CONSTANTS
  P = 5
  Part = "kzg"
SPECIFICATION Spec
INVARIANTS Bilinear Division KzgExact SrsExact KeyOpenings RowsCover
CHECK_DEADLOCK FALSE
