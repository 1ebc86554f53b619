SPECIFICATION Spec
CONSTANTS Thr = {0, 1} Slots = {0, 1, 10} MaxVals = 3 MaxOps = 7
INVARIANTS NoneDangles Settled
CHECK_DEADLOCK FALSE
