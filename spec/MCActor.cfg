SPECIFICATION Spec
CONSTANTS Blocks = {"a", "b"}
Threads = {1, 2}
MaxNest = 2
MaxEdits = 2
INVARIANTS Exclusive RunsOnlyActive DownIsOff FailedOff
CHECK_DEADLOCK FALSE
