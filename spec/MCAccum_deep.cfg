SPECIFICATION Spec
CONSTANTS
  MaxBytes = 9
  MaxPiece = 5
INVARIANTS Prefix Shown Served
CHECK_DEADLOCK TRUE
