SPECIFICATION Spec
CONSTANT Wide = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
