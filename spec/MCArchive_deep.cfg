CONSTANT W = 16
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
