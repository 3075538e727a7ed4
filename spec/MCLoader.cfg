SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Meta <- MetaDocs
INVARIANT Report_
PROPERTY Steps
