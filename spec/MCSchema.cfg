SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Meta <- NoMeta
INVARIANT Law
INVARIANT Report
