SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANTS Right
CHECK_DEADLOCK FALSE
