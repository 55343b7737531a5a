SPECIFICATION Spec
INVARIANT SpelledToTheEnd
INVARIANT FailureIsInItsStatement
INVARIANT NothingRunsUnlessParsed
INVARIANT LaterTextDoesNotMatter
CHECK_DEADLOCK FALSE
