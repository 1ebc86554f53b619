SPECIFICATION Spec
CONSTANTS
  MaxFlows = 4
  Deep = FALSE
INVARIANTS SquashIsFlat OnlyLeaves NothingLeft
PROPERTIES RealIsFlat UncommittedHasNoEffect
CHECK_DEADLOCK FALSE
