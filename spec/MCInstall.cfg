SPECIFICATION Spec
INVARIANT Sane
INVARIANT Closed
INVARIANT Once
INVARIANT Idempotent
INVARIANT OrderFree
PROPERTY Refines
CHECK_DEADLOCK FALSE
