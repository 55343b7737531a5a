SPECIFICATION Spec
INVARIANT ElementByElement
INVARIANT AnyDepth
CHECK_DEADLOCK FALSE
