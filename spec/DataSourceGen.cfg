SPECIFICATION Spec
VIEW View
INVARIANT Local
CHECK_DEADLOCK FALSE
