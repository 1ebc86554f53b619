SPECIFICATION Spec
CONSTANTS Callers = {c1, c2}
Producers = {p1}
Rounds = 1
INVARIANTS Exclusive LockHeld Counted
PROPERTIES Worked Served
CHECK_DEADLOCK FALSE
