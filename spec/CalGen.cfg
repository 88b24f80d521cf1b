SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT ClosedForm
INVARIANT ReadBack
INVARIANT BadAreBad
