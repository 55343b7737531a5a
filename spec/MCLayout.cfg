SPECIFICATION Spec
INVARIANT LayoutChangesNothing
INVARIANT NothingIsLost
CHECK_DEADLOCK FALSE
