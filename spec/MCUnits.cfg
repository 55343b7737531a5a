SPECIFICATION Spec
INVARIANT ThereAndBack
INVARIANT SpellingDoesNotMatter
INVARIANT OtherDimensionsAreRefused
CHECK_DEADLOCK FALSE
