SPECIFICATION Spec
CONSTANTS
  Outs = {"s"}
  Ins = {"d", "e"}
  Doms = {"", "g", "h"}
INVARIANTS DirectFit OneWriter Same NoWaste OneManager
CHECK_DEADLOCK FALSE
