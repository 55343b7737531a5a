SPECIFICATION Spec
INVARIANT Sorted
CHECK_DEADLOCK FALSE
