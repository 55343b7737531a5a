SPECIFICATION Spec
INVARIANT BitByBit
INVARIANT ShiftsArePowers
INVARIANT Flips
CHECK_DEADLOCK FALSE
