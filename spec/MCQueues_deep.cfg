SPECIFICATION Spec
CONSTANTS
  MaxCap = 5
  Mod = 16
INVARIANTS Same InOrder Bounded
CHECK_DEADLOCK FALSE
