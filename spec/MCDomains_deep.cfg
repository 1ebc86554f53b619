SPECIFICATION Spec
CONSTANTS
  Outs = {"s"}
  Ins = {"d", "e", "f"}
  Doms = {"", "g"}
INVARIANTS DirectFit OneWriter Same NoWaste OneManager
CHECK_DEADLOCK FALSE
