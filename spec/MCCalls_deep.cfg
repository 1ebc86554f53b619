SPECIFICATION Spec
CONSTANTS Cs = {1, 2} Types = {"i", "s", "o"} MaxArity = 3 Positions = {0, 1, 2} Nums = {1} MaxArgs = 3 MaxOps = 4
INVARIANTS Counted InOrder Apart OneLess Proper
CHECK_DEADLOCK FALSE
