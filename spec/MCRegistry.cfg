SPECIFICATION Spec
CONSTANTS Thr = {1, 2} MaxOps = 2 Small = TRUE
INVARIANTS TypeOK Informed Honest
CHECK_DEADLOCK FALSE
