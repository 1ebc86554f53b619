SPECIFICATION Spec
INVARIANTS AtMostOnce OnlySubscribed Ordered PerSource NoLoss
CONSTANTS Tokens = 2 MaxPosts = 3 MaxEdits = 2
CHECK_DEADLOCK FALSE
