SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2}
  Rounds = 3
INVARIANTS Exclusive Counted
PROPERTIES Served
CHECK_DEADLOCK FALSE
