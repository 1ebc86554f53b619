SPECIFICATION Spec
CONSTANTS
  Outs = {"s"}
  Ins = {"d", "e", "f"}
  Procs = {0, 1, 2}
  MaxSent = 3
  MaxEdits = 5
INVARIANTS Within OneWay Economy InOrder Lossless
CHECK_DEADLOCK FALSE
