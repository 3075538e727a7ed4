SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NeverBlocked
INVARIANT Report
PROPERTY Settled
