SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SafeAll
  Compatible
INVARIANT Live
