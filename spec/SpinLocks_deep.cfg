SPECIFICATION Spec
CONSTANTS
  Thr = {1, 2, 3}
  Rounds = 2
INVARIANTS Exclusive Counted
PROPERTIES Served
CHECK_DEADLOCK FALSE
