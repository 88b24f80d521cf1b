SPECIFICATION ASpec
CHECK_DEADLOCK FALSE
INVARIANT SafeAll
INVARIANT Live
INVARIANT Delivered
INVARIANT Undisturbed
