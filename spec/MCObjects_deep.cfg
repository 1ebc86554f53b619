SPECIFICATION Spec
CONSTANTS Thr = {0, 1} Slots = {0, 1, 10, 11} MaxVals = 3 MaxOps = 10
INVARIANTS NoneDangles Settled
CHECK_DEADLOCK FALSE
