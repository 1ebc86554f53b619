SPECIFICATION Spec
CONSTANTS
  Kinds = {"generic", "circular"}
  NB = 2
  BS = 3
  Ids = {1, 2, 3}
INVARIANTS Disjoint FrontFree Conserved Bounded
CHECK_DEADLOCK TRUE
