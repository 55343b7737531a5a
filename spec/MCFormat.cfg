SPECIFICATION Spec
INVARIANT AddsUp
INVARIANT FallsOff
INVARIANT AnyUnitWill
INVARIANT OwnSystem
CHECK_DEADLOCK FALSE
