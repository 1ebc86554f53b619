SPECIFICATION Spec
CONSTANTS Tasks = {a, b, c}
N = 2
MaxOps = 4
INVARIANTS Exclusive Gone Bound Staffed
PROPERTIES Returns Served
CHECK_DEADLOCK FALSE
