SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
