CONSTANTS Thr = {a, b}
Rounds = 2
Fixed = TRUE
SPECIFICATION Spec
INVARIANTS OneReader Own Blame
PROPERTY Ends
CHECK_DEADLOCK FALSE
