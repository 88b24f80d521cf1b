SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT SafeAll
INVARIANT Live
