SPECIFICATION Spec
INVARIANTS AtMostOnce OnlySubscribed Ordered PerSource NoLoss
CONSTANTS Tokens = 2 MaxPosts = 3 MaxEdits = 1
CHECK_DEADLOCK FALSE
