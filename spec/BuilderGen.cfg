SPECIFICATION Spec
INVARIANT LastWins CompleteMeans
CHECK_DEADLOCK FALSE
