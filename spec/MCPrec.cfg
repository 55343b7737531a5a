SPECIFICATION Spec
INVARIANT BracketsChangeNothing
CHECK_DEADLOCK FALSE
