SPECIFICATION Spec
INVARIANTS OneBlockEach RunByItsPool PoolBound
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
