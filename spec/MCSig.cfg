SPECIFICATION Spec
INVARIANT OnlyTheDeclaredCounts
INVARIANT RefusalsDoNothing
CHECK_DEADLOCK FALSE
