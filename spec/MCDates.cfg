SPECIFICATION Spec
INVARIANT Undone
INVARIANT Elapsed
CHECK_DEADLOCK FALSE
