SPECIFICATION Spec
CONSTANTS
  Outs = {"s", "t"}
  Ins = {"d", "e"}
  Doms = {"", "g"}
INVARIANTS DirectFit OneWriter Same NoWaste OneManager
CHECK_DEADLOCK FALSE
