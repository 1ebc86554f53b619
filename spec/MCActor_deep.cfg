SPECIFICATION Spec
CONSTANTS Blocks = {"a", "b"}
Threads = {1, 2, 3}
MaxNest = 2
MaxEdits = 4
INVARIANTS Exclusive RunsOnlyActive DownIsOff FailedOff
CHECK_DEADLOCK FALSE
