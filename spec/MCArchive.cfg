CONSTANT W = 10
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
