CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
