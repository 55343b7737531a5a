SPECIFICATION Spec
INVARIANT DivisorsAndMultiples
INVARIANT FactorialsGrow
INVARIANT OddAndEven
CHECK_DEADLOCK FALSE
