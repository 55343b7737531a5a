SPECIFICATION Spec
INVARIANT LiteralsAreTheirCharacters
INVARIANT Counting
INVARIANT SplitUndoesJoin
INVARIANT StringsAreOrdered
CHECK_DEADLOCK FALSE
