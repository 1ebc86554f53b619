SPECIFICATION Spec
CONSTANTS
  MaxCap = 3
  Mod = 16
INVARIANTS Same InOrder Bounded
CHECK_DEADLOCK FALSE
