SPECIFICATION Spec
CONSTANTS Cs = {1, 2} Types = {"i", "d", "o"} MaxArity = 2 Positions = {0, 1, 2} Nums = {1} MaxArgs = 2 MaxOps = 4
INVARIANTS Counted InOrder Apart OneLess Proper
CHECK_DEADLOCK FALSE
