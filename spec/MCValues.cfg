CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
