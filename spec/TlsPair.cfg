SPECIFICATION Spec
INVARIANT NoDeadlock
CHECK_DEADLOCK FALSE
