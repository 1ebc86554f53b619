SPECIFICATION Spec
CONSTANT MaxConns = 2
INVARIANTS Before Apart Nearest Joined
CHECK_DEADLOCK FALSE
