SPECIFICATION Spec
INVARIANT RangesStep
INVARIANT SortingOrders
INVARIANT CountsAndSums
CHECK_DEADLOCK FALSE
