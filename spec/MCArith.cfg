SPECIFICATION Spec
INVARIANT FieldLaws
INVARIANT DivisionLaws
INVARIANT PowerLaws
INVARIANT OrderLaws
CHECK_DEADLOCK FALSE
