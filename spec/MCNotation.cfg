SPECIFICATION Spec
INVARIANT ReadsBack
INVARIANT FirstNotationWins
INVARIANT OnlyTheLook
CHECK_DEADLOCK FALSE
