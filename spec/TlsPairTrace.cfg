SPECIFICATION Spec
INVARIANT Prefix
CHECK_DEADLOCK FALSE
