SPECIFICATION Spec
INVARIANTS Exclusive RunsOnlyActive DownIsOff
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
