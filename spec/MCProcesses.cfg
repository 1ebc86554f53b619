SPECIFICATION Spec
CONSTANTS
  Outs = {"s", "t"}
  Ins = {"d", "e"}
  Procs = {0, 1}
  MaxSent = 2
  MaxEdits = 4
INVARIANTS Within OneWay Economy InOrder Lossless
CHECK_DEADLOCK FALSE
