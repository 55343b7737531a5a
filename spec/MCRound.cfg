SPECIFICATION Spec
INVARIANT PrintedToTheDigit
INVARIANT NearestAboveBelow
CHECK_DEADLOCK FALSE
