SPECIFICATION Spec
CONSTANTS
  MaxFlows = 5
  Deep = TRUE
INVARIANTS SquashIsFlat OnlyLeaves NothingLeft
PROPERTIES RealIsFlat UncommittedHasNoEffect
CHECK_DEADLOCK FALSE
