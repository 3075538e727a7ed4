SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Meta <- MetaDocs
VIEW View
