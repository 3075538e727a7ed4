SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Laws
INVARIANT Report
