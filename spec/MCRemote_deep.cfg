CONSTANTS Thr = {1, 2}
Conns = {0, 1}
MaxN = 3
SPECIFICATION Spec
INVARIANTS NoDangling Executed Refers Counts
CHECK_DEADLOCK FALSE
