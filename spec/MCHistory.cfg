SPECIFICATION Spec
INVARIANT ParseOnlyIsPure
INVARIANT StatelessIsPure
INVARIANT CallsAreIsolated
INVARIANT FailureKeepsTheRest
INVARIANT TogetherIsOneByOne
INVARIANT StateIsShown
INVARIANT OthersDoNotMatter
CHECK_DEADLOCK FALSE
