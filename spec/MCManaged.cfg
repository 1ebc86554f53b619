SPECIFICATION Spec
CONSTANTS Both = FALSE MaxFns = 1 MaxOps = 4
INVARIANTS Proper Converts
CHECK_DEADLOCK FALSE
