SPECIFICATION Spec
CONSTANTS
  MaxBytes = 6
  MaxPiece = 3
INVARIANTS Prefix Shown Served
CHECK_DEADLOCK TRUE
