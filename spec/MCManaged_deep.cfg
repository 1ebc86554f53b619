SPECIFICATION Spec
CONSTANTS Both = TRUE MaxFns = 2 MaxOps = 3
INVARIANTS Proper Converts
CHECK_DEADLOCK FALSE
