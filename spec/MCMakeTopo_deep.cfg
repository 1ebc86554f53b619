SPECIFICATION Spec
CONSTANT MaxConns = 4
INVARIANTS Before Apart Nearest Joined
CHECK_DEADLOCK FALSE
