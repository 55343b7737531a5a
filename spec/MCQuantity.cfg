SPECIFICATION Spec
INVARIANT TheUnitsWrittenDoNotMatter
INVARIANT SumsUndo
INVARIANT OnlyLikeQuantitiesMix
INVARIANT ComparisonIsOfQuantities
CHECK_DEADLOCK FALSE
