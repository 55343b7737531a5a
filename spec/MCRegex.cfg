SPECIFICATION Spec
INVARIANT MatchesAndSearches
INVARIANT PiecesMakeTheText
INVARIANT MatchedWholly
CHECK_DEADLOCK FALSE
