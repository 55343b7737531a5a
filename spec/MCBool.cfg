SPECIFICATION Spec
INVARIANT TruthTable
INVARIANT Deferred
CHECK_DEADLOCK FALSE
